"""C16: continuous flows and their fields against spec/Stepper.tla and spec/FlowTrace.tla."""
from functools import partial

import diffrax
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

from bijx import cg
from bijx.bijections.continuous import AutoJacVF, ContFlowCG, ContFlowDiffrax, ContFlowRK4
from bijx.bijections.conv_cnf import ConvVF
from bijx.nn.conv import kernel_d4, kernel_equidist
from bijx.nn.features import ConcatFeatures, FourierFeatures, PolynomialFeatures
from bijx.nn import embeddings
from bijx.solvers import DiffraxConfig
from checks.c15 import D, ROW, SOLV, big, digest, fl, guard, tableau
from harness.core import ints, q, q1

NONE = 99
FLOWS = ("rk4", "cg:Euler", "cg:CG2", "cg:CG3", "cg:X4", "dfx:Euler", "dfx:CG2", "dfx:Heun")


class DigestVF(nnx.Module):
    """The erratic field of the specification with a log-density rate."""

    def __init__(self, nm, ts, P, matrix=False):
        self.nm, self.ts, self.matrix = nm, ts, matrix
        self.P = nnx.Param(jnp.asarray(P, float))

    def __call__(self, t, x, shift=0.0, scale=1.0):
        P = self.P[...] + shift
        n = P.shape[0] - 1
        def one(t, y, X):
            k, K = digest(self.nm, P, self.ts, t, y, X)
            S = jnp.round(24 * t / self.ts) + jnp.sum(jnp.arange(1, n + 1) * jnp.mod(jnp.round(y), 7))
            w = jnp.arange(1, X.shape[0] + 1)[:, None, None] + 3 * jnp.arange(1, 4)[:, None] + jnp.arange(1, 4)
            S = S + jnp.sum(w * jnp.mod(jnp.round(X / ROW), 7))
            ld = 2 * (jnp.mod(S * (n + 1) + P[n], 7) - 3) * D[self.nm] / self.ts
            return k * scale, K * scale, ld * scale
        if self.matrix:
            y, X = x["y"], x["m"]
            f = one
            for _ in range(y.ndim - 1):
                f = jax.vmap(f, in_axes=(None, 0, 0))
            k, K, ld = f(t, y, X)
            return {"y": k, "m": K}, ld
        f = lambda t, y: one(t, y, jnp.zeros((0, 3, 3)))
        for _ in range(x.ndim - 1):
            f = jax.vmap(f, in_axes=(None, 0))
        k, _, ld = f(t, x)
        return k, ld


def calls(cases):
    out = []
    for i, cs in cases:
        rng = np.random.default_rng(i)
        kind = FLOWS[i % len(FLOWS)]
        nm = "RK4" if kind == "rk4" else kind.split(":")[1]
        ts = float(rng.choice([1.0, 0.5, 0.125, 0.3]))
        n = int(rng.integers(2, 5))
        bsh = [(), (3,), (2, 2), (1,)][int(rng.integers(0, 4))]
        B = int(np.prod(bsh))
        P = rng.integers(0, 7, max(n + 1, 3))
        P = P[: n + 1] if n >= 2 else P
        matrix = kind.startswith("cg") and nm != "CG3" and bool(i % 3)
        vf = DigestVF(nm, ts, P, matrix)
        d0, d1 = cs["d0"] * ts, cs["d1"] * ts
        shift = int(rng.integers(0, 3))
        x = rng.integers(-4, 5, bsh + (n,))
        ld = rng.integers(-4, 5, bsh)
        X = rng.integers(-1, 2, bsh + (1, 3, 3)) if matrix else np.zeros(bsh + (0, 3, 3), int)
        for k, c in enumerate(cs["calls"]):
            a, b = (cs["d0"] if c["o0"] == NONE else c["o0"]), (cs["d1"] if c["o1"] == NONE else c["o1"])
            if matrix and abs(a - b) > 3:
                continue
            base = dict(ep=f"{i}.{k}", key=f"{kind} default {cs['d0']}->{cs['d1']} call {c} batch {bsh}")
            def go():
                if kind == "rk4":
                    flow = ContFlowRK4(vf, t_start=d0, t_end=d1, steps=7)
                elif kind.startswith("cg"):
                    flow = ContFlowCG(vf, {"y": cg.Euclidean(), "m": cg.Matrix()} if matrix else cg.Euclidean(), t_start=d0, t_end=d1, steps=7, tableau=tableau(nm))
                else:
                    flow = ContFlowDiffrax(vf, DiffraxConfig(solver=SOLV[nm](), t_start=d0, t_end=d1, dt=0.01))
                kw = dict(steps=c["steps"]) if not kind.startswith("dfx") else dict(dt=abs(a - b) * ts / c["steps"])
                if c["o0"] != NONE:
                    kw["t_start"] = c["o0"] * ts
                if c["o1"] != NONE:
                    kw["t_end"] = c["o1"] * ts
                if shift:
                    kw["shift"] = float(shift)
                xin = jnp.asarray(x, float)
                if matrix:
                    xin = {"y": xin, "m": jnp.asarray(X * ROW)}
                call = lambda x, l: (flow.reverse if c["rev"] else flow.forward)(x, l, **kw)
                y, o = (jax.jit(call) if i % 2 else call)(xin, jnp.asarray(ld, float))
                kept = jax.tree.structure(y) == jax.tree.structure(xin) and o.shape == bsh and all(
                    jax.tree.leaves(jax.tree.map(lambda p, r: p.shape == r.shape, y, xin)))
                yv, yX = (y["y"], y["m"]) if matrix else (y, np.zeros(bsh + (0, 3, 3)))
                yv, o, yX = np.asarray(yv).reshape(B, n), np.asarray(o).reshape(B), np.asarray(yX).reshape(B, -1, 3, 3)
                cc = {k: (bool(v) if k == "rev" else int(v)) for k, v in c.items()}
                return dict(ev="Call", tab=nm, d0=cs["d0"], d1=cs["d1"], c=cc, P=fl(P + shift), kept=bool(kept),
                            v=[fl(p) + [int(r)] for p, r in zip(x.reshape(B, n), ld.reshape(B))], X=[[m.tolist() for m in p] for p in X.reshape(B, -1, 3, 3)],
                            ov=[big(p) + big(r) for p, r in zip(yv, o)], oX=[[[big(r) for r in m / ROW] for m in p] for p in yX])
            guard(out, kind, base, go)
    return out


class SmoothVF(nnx.Module):
    def __init__(self, A):
        self.A = nnx.Param(jnp.asarray(A))

    def __call__(self, t, x, gain=1.0):
        return gain * jnp.tanh(x @ self.A[...].T) + jnp.cos(t) * x * 0.5 + 0.3 * t


def flows(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(40 + i)
        n = 3
        vf = AutoJacVF(SmoothVF(rng.normal(size=(n, n)) * 0.6), event_dim=1)
        d0, d1 = [(0.0, 1.0), (0.0, 2.0), (1.0, -0.5), (-1.0, -0.25), (0.5, 3.0)][i % 5]
        over = [{}, dict(t_end=d1 + 0.5), dict(t_start=d0 - 0.25), dict(t_start=1.0, t_end=0.2)][(i // 5) % 4]
        mk = {"rk4": lambda: ContFlowRK4(vf, t_start=d0, t_end=d1, steps=40),
              "cg": lambda: ContFlowCG(vf, cg.Euclidean(), t_start=d0, t_end=d1, steps=60, tableau=cg.CG3),
              "dfx": lambda: ContFlowDiffrax(vf, DiffraxConfig(t_start=d0, t_end=d1, dt=0.03)),
              "dfx-adaptive": lambda: ContFlowDiffrax(vf, DiffraxConfig(t_start=d0, t_end=d1, dt=0.03, stepsize_controller=diffrax.PIDController(rtol=1e-8, atol=1e-8)))}
        for kind, make in mk.items():
            bsh = [(), (2,)][i % 2]
            x, ld = jnp.asarray(rng.normal(size=bsh + (n,))), jnp.asarray(rng.normal(size=bsh))
            base = dict(ep=f"f{i}{kind}", key=f"{kind} {d0}->{d1} override {over}")
            def undo():
                f = make()
                y, l1 = f.forward(x, ld, gain=0.8, **over)
                z, l2 = f.reverse(y, l1, gain=0.8, **over)
                return dict(ev="Undo", x0=q(x), x1=q(y), x2=q(z), ld0=q(ld), ld2=q(l2), tol=400, moved=True)
            guard(out, "round trip", base, undo)
            def undo2():
                f = make().invert()
                y, l1 = f.forward(x, ld, gain=0.8)
                z, l2 = f.reverse(y, l1, gain=0.8)
                g = make()
                r, l3 = g.reverse(x, ld, gain=0.8)
                return dict(ev="Undo", x0=q(x) + q(r), x1=q(y) + q(z), x2=q(z) + q(y), ld0=q(ld) + q(l3), ld2=q(l2) + q(l1), tol=400, moved=True)
            guard(out, "inverted", base, undo2)
            def vol():
                f = make()
                x1 = x.reshape(-1, n)[0]
                J = jax.jacrev(lambda u: f.forward(u, jnp.zeros(()), **over)[0])(x1)
                return dict(ev="Vol", dld=q1(f.forward(x1, jnp.zeros(()), **over)[1]), logdet=q1(jnp.linalg.slogdet(J)[1]), tol=400)
            guard(out, "volume", base, vol)
    return out


def autojac(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(70 + i)
        ed = i % 4
        esh = tuple(int(v) for v in rng.integers(1, 4 if ed < 3 else 3, ed))
        bsh = [(), (2,), (2, 2), (1,)][int(rng.integers(0, 4))]
        n, B = int(np.prod(esh)), int(np.prod(bsh))
        A, c, Q = rng.integers(-3, 4, (n, n)), rng.integers(-3, 4, n), rng.integers(-2, 3, (n, n, n))
        t = int(rng.integers(-2, 3))
        x = rng.integers(-3, 4, bsh + esh)
        base = dict(ep=f"a{i}", key=f"AutoJacVF event {esh} batch {bsh}")
        def f(t, u, k):
            v = u.reshape(u.shape[: u.ndim - ed] + (n,))
            r = v @ jnp.asarray(A, float).T + jnp.einsum("ijk,...j,...k->...i", jnp.asarray(Q, float) * k, v, v) + t * jnp.asarray(c, float)
            return r.reshape(u.shape)
        def go():
            vf = AutoJacVF(f, event_dim=ed)
            call = (lambda t, u: vf(t, u, k=1.0))
            v, d = (jax.jit(call) if i % 3 == 0 else call)(float(t), jnp.asarray(x, float))
            kept = v.shape == x.shape and d.shape == bsh
            return dict(ev="AutoJac", A=A.tolist(), Q=Q.tolist(), c=fl(c), t=t, x=[fl(r) for r in x.reshape(B, n)],
                        v=[ints(r) for r in np.asarray(v).reshape(B, n)], d=ints(d), kept=bool(kept))
        guard(out, "AutoJacVF", base, go)
    return out


class Emb(nnx.Module):
    feature_count = 3

    def __call__(self, t):
        return jnp.stack([jnp.ones_like(t), t, t * t - 1.0])


def convs(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(20 + i)
        dim = 1 + i % 2
        k = int(rng.integers(1, 5))
        K = (k,) * dim
        L = tuple(int(v) for v in rng.integers(1, 5, dim))
        csh = [(), (2,), (1,), (2, 1), (3,)][i % 5]
        C = int(np.prod(csh))
        pows = [(1,), (0, 1, 2), (2, 1), (3, 1)][int(rng.integers(0, 4))]
        split = int(rng.integers(0, len(pows)))
        red = [None, 2, 3][int(rng.integers(0, 3))]
        bias = bool(rng.integers(0, 2))
        sym = [kernel_d4, kernel_equidist, lambda s: (int(np.prod(s)), np.arange(np.prod(s)).reshape(s))][i % 3]
        bsh = [(), (2,), (2, 1)][int(rng.integers(0, 3))]
        t = int(rng.integers(-2, 3))
        base = dict(ep=f"c{i}", key=f"ConvVF kernel {K} lattice {L} channels {csh} powers {pows} reduced {red} bias {bias} symmetry {i % 3}")
        def go():
            feats = tuple(partial(PolynomialFeatures, p) for p in (pows[:split], pows[split:]) if p)
            vf = ConvVF.build(K, csh, symmetry=sym, use_bias=bias, time_kernel=Emb(), time_kernel_reduced=None, features=feats, features_reduced=red, rngs=nnx.Rngs(i))
            rp = lambda p: nnx.Param(jnp.asarray(rng.integers(-2, 3, p.shape), float))
            vf.conv.kernel_params = rp(vf.conv.kernel_params)
            if bias:
                vf.conv.bias = rp(vf.conv.bias)
            scale = 1
            if red is not None:
                vf.feature_superposition = rp(vf.feature_superposition)
                scale = C * len(pows)
            x = rng.integers(-2, 3, bsh + L + csh)
            call = jax.jit(lambda v, t, x: v(t, x)) if i % 4 == 0 else (lambda v, t, x: v(t, x))
            v, d = vf(jnp.asarray(float(t)), jnp.asarray(x, float))
            N, B = int(np.prod(L)), int(np.prod(bsh))
            emb = [1, t, t * t - 1]
            return dict(ev="Conv", K=list(K), L=list(L), C=C, pow=list(pows), emb=emb, scale=scale, orb=fl(vf.conv.orbits), par=ints_nested(vf.conv.kernel_params[...]),
                        bias=ints(vf.conv.bias[...]) if bias else [], sup=ints_nested(vf.feature_superposition[...]) if red else [],
                        x=x.reshape(B, N, C).tolist(), v=ints_nested(np.asarray(v).reshape(B, N, C) * scale), d=ints(np.asarray(d) * scale),
                        kept=bool(v.shape == x.shape and d.shape == bsh))
        guard(out, "ConvVF", base, go)
        def smooth():
            vf = ConvVF.build(K, csh, symmetry=sym, use_bias=bias, features_reduced=[None, 4][i % 2], time_kernel_reduced=[None, 5][(i // 2) % 2],
                              time_kernel=embeddings.KernelFourier(7), features=(partial(FourierFeatures, 5), partial(PolynomialFeatures, (1,))), rngs=nnx.Rngs(i))
            vf.conv.kernel_params = nnx.Param(jnp.asarray(rng.normal(size=vf.conv.kernel_params.shape)))
            x = jnp.asarray(rng.normal(size=L + csh))
            J = jax.jacfwd(lambda u: vf(0.3, u)[0])(x).reshape(x.size, x.size)
            return dict(ev="Div", d=q1(vf(0.3, x)[1]), diag=q(jnp.diagonal(J)))
        guard(out, "ConvVF", dict(base, key=base["key"] + " fourier"), smooth)
    return out


def ints_nested(a):
    a = np.asarray(a)
    return ints(a) if a.ndim == 1 else [ints_nested(v) for v in a]


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    cases = ctx.generate("MCFlow", cfg="MCFlow.cfg")
    sim = ctx.generate("MCFlow", cfg="MCFlowSim.cfg", extra=("-simulate", f"num={60 if ctx.quick else 800}", "-depth", "4", "-seed", str(ctx.seed + 3)))
    rng = ctx.nprng("c16")
    pick = [cases[j] for j in rng.permutation(len(cases))[: 16 if ctx.quick else 600]] + [sim[j] for j in rng.permutation(len(sim))[: 28 if ctx.quick else 700]]
    todo = list(enumerate(pick))
    # every kind of flow gets overrides by zero of defaults other than zero, at either end and in either direction
    zero = [c for c in cases if c["d0"] and c["d1"] and len({u["rev"] for u in c["calls"]}) == 2 and c["calls"][0]["o0"] == 0 and c["calls"][1]["o1"] == 0]
    n0 = (len(todo) // len(FLOWS) + 1) * len(FLOWS)
    todo += [(n0 + j, zero[int(rng.integers(len(zero)))]) for j in range(len(FLOWS))]
    m = 12 if ctx.quick else 48
    nf, na, nc = (5, 16, 24) if ctx.quick else (40, 160, 240)
    evs = ctx.pmap("checks.c16", "job", [("calls", todo[j::m]) for j in range(m)] + [("flows", list(range(j, nf, 5))) for j in range(5)]
                   + [("autojac", list(range(j, na, 2))) for j in range(2)] + [("convs", list(range(j, nc, 4))) for j in range(4)])
    ctx.validate("FlowTrace", evs, timeout=1500)
