"""C08: mixtures against spec/Mixture.tla; histories of draws against spec/Dist.tla."""
import math
from statistics import NormalDist

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from checks.c07 import EDGE, Fixed, history
from checks.c18 import guard
from harness.core import ints, q, shape

f = lambda v: jnp.asarray(v, dtype=float)
BSH = [(), (1,), (2,), (3,), (2, 2), (4,), (1, 3)]


class ByC(bijx.Bijection):
    """Moves every coordinate by the keyword argument c."""

    def forward(self, x, ld, c=0.0, **kw):
        return x + c, ld

    def reverse(self, x, ld, c=0.0, **kw):
        return x - c, ld


def logits(cs, how):
    w = np.array([c["w"] for c in cs])
    lw = np.where(w > 0, np.log(np.maximum(w, 1)), -np.inf) + [0.0, 2.5, -40.0, 600.0, -900.0][how % 5]
    if len(set(w)) == 1 and how % 3 == 0:
        return (len(w),)
    return [f(lw), nnx.Param(f(lw)), bijx.Const(f(lw)), np.asarray(lw, float)][how % 4]


def parts(cs, far=1):
    """Means, factors and covariances of the components in units of one."""
    m = np.array([[v / 4 * far for v in c["m"]] for c in cs])
    L = np.array([np.linalg.inv(np.array(c["A"], float)) for c in cs])
    return m, L, L @ L.transpose(0, 2, 1)


def wrap(v, how):
    return [f, lambda a: nnx.Param(f(a)), lambda a: bijx.Const(f(a))][how % 3](v)


def stacked(cs, kind, how, m, L, cov, cond):
    n = m.shape[1]
    A = np.array([np.diag(np.array(c["A"], float)) for c in cs])
    if kind == "box":
        mk = lambda s, v: bijx.Transformed(bijx.IndependentUniform((n,)), bijx.Chain(bijx.Scaling(s), bijx.Shift(v)))
        return nnx.vmap(mk)(f(1 / A), f(m))
    if cond:
        mk = lambda v, c: bijx.Transformed(bijx.MultivariateNormal(v, c), ByC())
        return nnx.vmap(mk)(f(m), f(L[:, *np.tril_indices(n)]))
    if kind == "diag" and how % 3 == 0:
        mk = lambda s, v: bijx.Transformed(bijx.IndependentNormal((n,)), bijx.Chain(bijx.Scaling(s), bijx.Shift(v)))
        return nnx.vmap(mk)(f(1 / A), f(m))
    if kind == "diag":
        s = 1 / A
        return [lambda: bijx.DiagonalNormal(wrap(m, how), wrap(-s, how)), lambda: nnx.vmap(lambda v, c: bijx.DiagonalNormal(v, c))(f(m), f(s)),
                lambda: bijx.DiagonalNormal.given_variances(wrap(m, how), wrap(s * s, how // 2))][how % 3]()
    t = L[:, *np.tril_indices(n)]
    return [lambda: bijx.MultivariateNormal(wrap(m, how), wrap(t, how // 3)), lambda: bijx.MultivariateNormal.given_cov(wrap(m, how), f(cov)),
            lambda: nnx.vmap(lambda v, c: bijx.MultivariateNormal(v, c))(f(m), f(t)),
            lambda: nnx.vmap(lambda v, c: bijx.MultivariateNormal.given_cov(v, c))(f(m), f(cov))][how % 4]()


def mixture(case, how, far=1, rngs=None):
    """The mixture in one of the ways the library offers, with its expected keyword arguments."""
    cs, kind = case["comps"], case["kind"]
    m, L, cov = parts(cs, far)
    n = m.shape[1]
    style = ["gm", "stack", "cond", "gm", "nested"][how % 5]
    if kind == "box" and style in ("gm", "nested"):
        style = "stack"
    if style == "cond" and kind == "box":
        style = "stack"
    if style == "nested" and not (len(cs) == 4 and all(sum(c["w"] for c in cs[i:i + 2]) > 0 for i in (0, 2))):
        style = "gm"
    how //= 5
    if style == "gm":
        unit = all(np.array_equal(c["A"], np.eye(n)) for c in cs)
        cv = np.diagonal(cov, axis1=1, axis2=2) if kind == "diag" and (how % 2 or not unit) else cov
        lw = logits(cs, how)
        g = bijx.GaussianMixture(wrap(m, how), None if unit and how % 4 else wrap(cv, how // 2) if kind == "diag" else f(cv),
                                 None if isinstance(lw, tuple) and how % 2 else lw, rngs=rngs or nnx.Rngs(how))
        return g, style
    if style == "nested":
        iw = np.array([[c["w"] for c in cs[i:i + 2]] for i in (0, 2)], float)
        with np.errstate(divide="ignore"):
            li, lo = np.log(iw) + how % 3, np.log(iw.sum(1))
        inner = nnx.vmap(lambda v, c, w: bijx.GaussianMixture(v, c, w))(f(m.reshape(2, 2, n)), f(cov.reshape(2, 2, n, n)), f(li))
        return bijx.MixtureStack(inner, f(lo), rngs=rngs), style
    return bijx.MixtureStack(stacked(cs, kind, how, m, L, cov, style == "cond"), logits(cs, how), rngs=rngs or nnx.Rngs(how)), style


def whiten(c, z, far=1):
    return (z - np.array(c["m"]) * far) @ np.array(c["A"]).T


def scores(out, case, how, i, rng):
    cs, kind, n = case["comps"], case["kind"], case["n"]
    base = dict(ep=f"s{i}", key=f"mixture {kind} {len(cs)} of dimension {n} built {how}")
    def go():
        d, style = mixture(case, how)
        key = f"mixture {style} {kind} {len(cs)} of dimension {n} built {how}"
        evs = [dict(ev="Mix", kind=kind, n=n, comps=cs)]
        live = [c for c in cs if c["w"] > 0]
        W = sum(c["w"] for c in cs)
        for r in range(4):
            bsh = BSH[int(rng.integers(len(BSH)))] if r else (len(cs),)
            B = int(np.prod(bsh, dtype=int))
            near = np.array([live[j]["m"] for j in rng.integers(0, len(live), B)])
            z = near + rng.integers(-3, 6, (B, n))
            if kind == "box":
                z = (z // 2) * 2 + 1
            else:
                z[rng.random(B) < .2] += rng.integers(-60, 60)
                z = np.clip(z, -60, 60)
            c = int(rng.integers(-4, 5)) if style == "cond" and r % 2 else 0
            kw = dict(c=c / 4) if style == "cond" and r % 2 else {}
            x = f((z / 4).reshape(bsh + (n,)))
            ld = [d.log_density, jax.jit(lambda v: d.log_density(v, **kw)), d.log_density, lambda v: jnp.log(d.density(v, **kw))][r](x, **(kw if r in (0, 2) else {}))
            n0 = [min(int((whiten(k, y - c) ** 2).sum()) for k in live) for y in z]
            ldr = np.asarray(ld).reshape(B)
            if r == 3 and kind != "box":                     # density underflows far out
                ok = np.array(n0) < 3200
                z, n0, ldr = z[ok], [v for v, o in zip(n0, ok) if o], ldr[ok]
            ds = np.exp(ldr + n / 2 * math.log(2 * math.pi) + np.array(n0) / 32) * W * 2**20 if kind != "box" else np.zeros(len(z))
            evs.append(dict(ev="Score", zs=z.tolist(), c=c, n0=n0, ds=ints(np.rint(ds)), lds=q(ldr), ldshape=shape(ld), bshape=list(bsh), got=list(d.get_batch_shape(x))))
        g = d
        if style == "gm":
            p = dict(weights=g.weights, logw=[], means=g.means, covs=g.covs)
        else:
            mv = style == "stack" and hasattr(g.stack, "cov")
            p = dict(weights=g.weights_normalized, logw=q(g.weights_log_normalized), means=g.stack.mean if mv else [], covs=g.stack.cov if mv else [])
        if style != "nested":
            M, C = np.asarray(p["means"]), np.asarray(p["covs"])
            evs.append(dict(ev="Props", weights=q(p["weights"]), logw=p["logw"], means=np.rint(M * 4).astype(int).tolist() if M.size else [],
                            covs=[[ints(np.rint(np.asarray(r) * 2**14)) for r in k] for k in C] if C.size else []))
        for v in evs:
            v["key"] = key
        return evs
    guard(out, "mixture", base, go)


def freqs(out, case, how, i, seed, N=1024):
    """Components far apart, so that every draw tells where it comes from."""
    cs0, kind, n = case["comps"], case["kind"], case["n"]
    cs = [dict(c, m=[v + 400 * k * (1 if j % 2 else -1) for j, v in enumerate(c["m"])]) for k, c in enumerate(cs0)]
    case = dict(case, comps=cs)
    base = dict(ep=f"f{i}", key=f"draws {kind} {len(cs)} of dimension {n} built {how}")
    def go():
        d, style = mixture(case, how, rngs=nnx.Rngs(seed))
        kw = dict(c=.75) if style == "cond" and how % 2 else {}
        lay = i % 4
        if lay == 0:
            x = d.sample((N,), rng=jax.random.key(seed + i), **kw)[0]
        elif lay == 1:
            x = d.sample((32, N // 32), rng=jax.random.key(seed + i), **kw)[0]
        elif lay == 2:
            x = jax.vmap(lambda k: d.sample((), rng=k, **kw)[0])(jax.random.split(jax.random.key(seed + i), N))
        else:
            x = jnp.stack([d.sample((N // 8,), **kw)[0] for _ in range(8)])
        z = np.asarray(x).reshape(-1, n) * 4 - 4 * kw.get("c", 0)
        u = np.stack([whiten(c, z) / 4 for c in cs])
        dist = (u**2).sum(-1) if kind != "box" else np.where(((u >= 0) & (u <= 1)).all(-1), 0, 1e9)
        which = dist.argmin(0)
        good = dist.min(0) < 200
        cnt = [int((good & (which == k)).sum()) for k in range(len(cs))]
        cells = []
        for k in range(len(cs)):
            v = u[k][good & (which == k)]
            if kind == "box":
                v = np.vectorize(NormalDist().inv_cdf)(np.clip(v, 1e-12, 1 - 1e-12)) if len(v) else v
            cols = [v[:, a] for a in range(n)] + [(v[:, a] + s * v[:, b]) / math.sqrt(2) for a in range(n) for b in range(a) for s in (1, -1)]
            cells.append([np.bincount(np.digitize(c, EDGE), minlength=8).tolist() for c in cols])
        same = []
        for h in (1, N // 32, N // 8):
            w = which.reshape(-1, 2, h)
            same.append([int(((w[:, 0] == k) & (w[:, 1] == k)).sum()) for k in range(len(cs))])
        key = f"draws {style} {kind} {len(cs)} of dimension {n} built {how} layout {lay}"
        return [dict(ev="Mix", kind=kind, n=n, comps=cs, key=key),
                dict(ev="Freq", num=len(z), pairs=len(z) // 2, cnt=cnt, cells=cells, same=same, key=key)]
    guard(out, "draws", base, go)


def exact(jobs):
    out = []
    for i, case, seed in jobs:
        rng = np.random.default_rng(seed + i)
        how = int(rng.integers(300))
        scores(out, case, how, i, rng)
    return out


def draws(jobs):
    out = []
    for i, case, seed in jobs:
        rng = np.random.default_rng(seed + 7 * i)
        freqs(out, case, int(rng.integers(300)), i, seed)
    return out


def histories(jobs):
    out = []
    for i, case, how, cs in jobs:
        n = case["n"]
        try:
            style = mixture(case, how)[1]
        except Exception:
            style = "?"
        kw = dict(c=.5) if style == "cond" else {}
        e = Fixed(f"mixture {style} {case['kind']} {len(case['comps'])} of dimension {n} built {how}", lambda r, c=case, h=how: mixture(c, h, rngs=r)[0], (n,), kw, tol=256)
        history(e, i, cs, out)
    return out


def shapes_only(jobs):
    """Mixtures created from shapes."""
    out = []
    for i, k, n, full, cs in jobs:
        make = lambda r: bijx.GaussianMixture((k, n), (k, n, n) if full else (k, n), (k,), rngs=r)
        e = Fixed(f"mixture {k} {n} {full} from shapes", make, (n,), tol=256)
        history(e, i, cs, out)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCMix", "MCMix.cfg" if ctx.quick else "MCMixDeep.cfg")
    cases = ctx.generate("MCMix", cfg="MCMixSim.cfg", extra=("-simulate", f"num={120 if ctx.quick else 3000}", "-depth", "12", "-seed", str(ctx.seed + 3)))
    words = ctx.generate("MCDist", cfg="MCDistSim.cfg", extra=("-simulate", f"num={60 if ctx.quick else 600}", "-depth", "10", "-seed", str(ctx.seed + 4)))
    rng = ctx.nprng("c08")
    cases.sort(key=lambda c: (len(c["comps"]), c["kind"]), reverse=True)
    ex = [(i, c, ctx.seed * 1000) for i, c in enumerate(cases)]
    dr = [(i, c, ctx.seed * 1000) for i, c in enumerate(cases[:: 4 if ctx.quick else 2])]
    hs = [(i, cases[int(rng.integers(len(cases)))], int(rng.integers(300)), words[i]) for i in range(min(len(words), 24 if ctx.quick else 400))]
    sh = [(i, k, n, full, words[-1 - i]) for i, (k, n, full) in enumerate((k, n, fl) for k in (1, 2, 3) for n in (1, 2, 3) for fl in (0, 1))]
    m = 8
    evs = ctx.pmap("checks.c08", "job", [("exact", ex[j::m]) for j in range(m)] + [("draws", dr[j::m]) for j in range(m)])
    hv = ctx.pmap("checks.c08", "job", [("histories", hs[j::m]) for j in range(m)] + [("shapes_only", sh[j::m]) for j in range(m)])
    ctx.validate("MixTrace", evs, cfg="Trace.cfg")
    ctx.validate("DistTrace", hv, cfg="Trace.cfg")
