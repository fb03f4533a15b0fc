"""C22: diagnostics of importance samples and moving averages against spec/Diag.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np

from bijx import utils
from checks.c18 import guard
from harness.core import q, shape


def arrays(s, pn, qn, dtype, rep):
    """Log-densities with the weights of the history, and with its log ratios."""
    base = np.array([a["s"] for a in s]) / 4
    with np.errstate(divide="ignore"):
        lw = np.array([math.log(a["m"]) + a["k"] * math.log(2) if a["m"] else -np.inf for a in s])
    w = (base + lw + pn / 4, base + qn / 4)
    d = (np.array([a["t"] for a in s]) / 4 + pn / 4, base + qn / 4)
    return [tuple(jnp.asarray(np.tile(v, rep), dtype) for v in p) for p in (w, d)]


def histories(jobs):
    out = []
    for i, case, seed in jobs:
        rng = np.random.default_rng(seed + i)
        single = i % 3 == 0                                # equal or no weight, exact in single precision
        dtype = np.float32 if single else np.float64
        rep = int(rng.choice([1, 1, 1, 7, 512, 4096])) if i % 2 else 1
        key = f"history {i} {np.dtype(dtype).name} repeated {rep}"
        base = dict(ep=f"h{i}", key=key)
        s, pn, qn = [], 0, 0
        out.append(dict(base, ev="Op", o="new"))
        big = [0, 4, 4000, 400000, 4000000][i % 5]
        for n, o in enumerate(case["word"]):
            o = dict(o)
            if o["o"] == "draw":
                if single:
                    o.update(m=min(o["m"], 1), k=0)
                s.append(dict(m=o["m"], k=o["k"], t=o["t"], s=o["s"]))
            elif o["o"] == "norm":
                o["c"] = o["c"] * (-1) ** n + (big if n % 2 else 0)
                pn, qn = (o["c"], qn) if o["w"] == "p" else (pn, o["c"])
            elif o["o"] == "swap":
                s[o["i"] - 1], s[o["j"] - 1] = s[o["j"] - 1], s[o["i"] - 1]
            else:
                s = s + s
            out.append(dict(base, ev="Op", **o))
            if n < 3 and rng.random() < .5:
                continue
            def go():
                (wt, ws), (dt, ds) = arrays(s, pn, qn, dtype, rep)
                ess = [utils.effective_sample_size(wt, ws)]
                dkl = [utils.reverse_dkl(dt, ds)]
                if n % 4 == 0:
                    ess.append(jax.jit(utils.effective_sample_size)(wt, ws))
                    ess.append(jax.vmap(utils.effective_sample_size)(wt[None], ws[None])[0])
                    dkl.append(jax.jit(utils.reverse_dkl)(dt, ds))
                if rep > 1:
                    p = rng.permutation(len(wt))
                    ess.append(utils.effective_sample_size(wt[p], ws[p]))
                    dkl = []
                elif abs(pn) + abs(qn) > 200000:           # single precision means
                    dkl = [] if single else dkl
                return dict(ev="Read", ess=q(jnp.stack(ess)) if any(a["m"] for a in s) else [], dkl=[int(v) for v in np.rint(np.array(dkl, float) * len(s) * 256)] if max(abs(pn), abs(qn)) < 50000 else [],
                            tol=64 if single else 16 + (abs(pn) + abs(qn)) // 10**6, rep=rep, shapes=[shape(ess[0]), []] if not dkl else [shape(ess[0]), shape(dkl[0])])
            guard(out, "diagnostics", base, go)
    return out


def mark(v):
    return [2000000001 if a != a else 2000000002 if a == np.inf else int(a) for a in v]


def averages(jobs):
    out = []
    for i, seed in jobs:
        rng = np.random.default_rng(seed + i)
        w = int(rng.choice([1, 2, 3, 4, 5, 7, 10, 16]))
        n = [int(rng.integers(1, 40)), w, w + 1, max(w - 1, 1), int(rng.integers(1, 40)), 20000][i % 6]
        dtype = [np.float64, np.float32, np.int64, np.float64, np.int32][i % 5]
        base = dict(ep=f"a{i}", key=f"average of {n} {np.dtype(dtype).name} over {w}")
        def go():
            x = rng.integers(-200, 1000, n).astype(dtype)
            if n == 20000:
                x = np.abs(x) + 500
            if dtype in (np.float64, np.float32) and i % 4 == 3:
                x[rng.integers(n)] = [np.inf, np.nan][i // 4 % 2]
            kw = {} if w == 10 and i % 2 else dict(window=w)
            f = utils.moving_average
            v = jnp.asarray(x)
            y = np.asarray([lambda: f(v, **kw), lambda: f(v, w), lambda: jax.jit(lambda a: f(a, **kw))(v), lambda: jax.vmap(lambda a: f(a, w))(v[None])[0]][i % 4 if not np.isinf(x).any() else 0]())
            tail = 60
            xr, yr = x, y
            if n > tail:
                xr, yr = x[-tail:], y[-(tail - w + 1):]
            yq = [a if a >= 2000000001 else a for a in q(yr, 1024)]
            return dict(ev="Avg", w=w, total=n, x=mark(xr), y=yq, len=len(y), tol=1)
        guard(out, "moving average", base, go)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCDiag", "MCDiag.cfg" if ctx.quick else "MCDiagDeep.cfg", timeout=900)
    N, A = (160, 240) if ctx.quick else (4000, 4000)
    cases = ctx.generate("MCDiag", cfg="MCDiagSim.cfg", extra=("-simulate", f"num={N}", "-depth", "14", "-seed", str(ctx.seed + 3)))
    cases = cases[::max(1, len(cases) // N)][:N]
    s = ctx.seed * 1000
    m = 8
    ex = [(i, c, s) for i, c in enumerate(cases)]
    av = [(i, s) for i in range(A)]
    ctx.validate("DiagTrace", ctx.pmap("checks.c22", "job", [("histories", ex[j::m]) for j in range(m)] + [("averages", av[j::m]) for j in range(m)]), cfg="Trace.cfg")
