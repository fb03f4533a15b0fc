"""C19: words of bridge crossings (spec/Bridge.tla) replayed through the
flowjax wrappers, and sampled through both interfaces (spec/Dist.tla)."""
import math
from fractions import Fraction

import equinox as eqx
import flowjax.bijections as fb
import flowjax.distributions as fd
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx import flowjax as bf
from checks.c07 import Fixed, cells, digest, history
from checks.c18 import guard
from harness.core import ints, q, shape

f = lambda v: jnp.asarray(v, dtype=float)
ramp = lambda c, rank: (c.reshape(c.shape[: c.ndim - rank] + (-1,)) * jnp.arange(1, int(np.prod(c.shape[c.ndim - rank:], dtype=int)) + 1)).sum(-1)


class Affine(bijx.Bijection):
    """x -> x M' + v r(condition) on flattened events."""

    def __init__(self, M, v, event, cond, name):
        self.M, self.v = bijx.Const(f(M)), bijx.Const(f(v))
        self.event, self.cond, self.name = event, cond, name

    def shift(self, batch, kw):
        if self.cond is None:
            return 0.0
        r = ramp(jnp.asarray(kw[self.name]), len(self.cond))
        return r[..., None] * self.v.get_value()

    def run(self, x, kw, back):
        k = len(self.event)
        b = x.shape[: x.ndim - k]
        z = x.reshape(b + (-1,))
        s, M = self.shift(b, kw), self.M.get_value()
        z = jnp.linalg.solve(M, (z - s)[..., None])[..., 0] if back else (M @ z[..., None])[..., 0] + s
        return z.reshape(b + self.event)

    def forward(self, x, ld, **kw):
        return self.run(x, kw, False), ld

    def reverse(self, x, ld, **kw):
        return self.run(x, kw, True), ld


class Cond(eqx.Module):
    v: jax.Array
    rank: int
    event: tuple

    def __call__(self, c):
        return (ramp(c, self.rank) * self.v).reshape(self.event)


class Maker:
    """Builds the object a word describes."""

    def __init__(self, event, cond, name, rng):
        self.event, self.cond, self.name, self.rng = event, cond, name, rng

    def to_f(self, b):
        if self.name == "condition" and self.rng.random() < .5:
            return bf.to_flowjax(b, self.event, self.cond)
        cls = bf.BijxToFlowjaxBijection.from_bijection if isinstance(b, bijx.Bijection) else bf.BijxToFlowjaxDistribution.from_distribution
        return cls(b, self.event, self.cond, self.name)

    def to_b(self, b):
        if self.name == "condition" and self.rng.random() < .5:
            return bf.from_flowjax(b)
        cls = bf.FlowjaxToBijxBijection if isinstance(b, fb.AbstractBijection) else bf.FlowjaxToBijxDistribution
        return cls(b, self.name)

    def leaf(self, op, lib):
        k, v, ev = op["k"], np.array(op["v"], float), self.event
        n = len(v)
        if lib == "B":
            if k == "scale":
                return bijx.Scaling(f(2.0**v).reshape(ev))
            if k == "shift":
                return bijx.Shift(f(v).reshape(ev))
            M = np.eye(n)
            if k == "perm":
                M = M[np.array(op["v"]) - 1]
            if k == "tri":
                M[np.arange(1, n), np.arange(n - 1)] = v[1:]
            return Affine(M, v if k == "cond" else 0 * v, ev, self.cond if k == "cond" else None, self.name)
        if k == "scale":
            return [lambda: fb.Affine(jnp.zeros(ev), f(2.0**v).reshape(ev)), lambda: fb.Scale(f(2.0**v).reshape(ev))][int(self.rng.integers(2))]()
        if k == "shift":
            return [lambda: fb.Affine(f(v).reshape(ev)), lambda: fb.Loc(f(v).reshape(ev))][int(self.rng.integers(2))]()
        if k == "perm":
            return fb.Permute(jnp.asarray(np.array(op["v"]) - 1).reshape(ev))
        if k == "tri":
            M = np.eye(n)
            M[np.arange(1, n), np.arange(n - 1)] = v[1:]
            t = fb.TriangularAffine(jnp.zeros(n), f(M))
            return t if ev == (n,) else fb.Reshape(t, ev)
        return fb.AdditiveCondition(Cond(f(v), len(self.cond), ev), ev, self.cond)

    def build(self, word):
        for t in word:
            lib = t["lib"]
            if t["t"] == "base":
                obj = bijx.IndependentNormal(self.event) if lib == "B" else [lambda: fd.StandardNormal(self.event), lambda: fd.Normal(jnp.zeros(self.event))][int(self.rng.integers(2))]()
                continue
            if t["t"] == "bridge":
                obj = self.to_f(obj) if lib == "B" else self.to_b(obj)
                continue
            if t["t"] == "inv":
                obj = obj.invert() if lib == "B" else fb.Invert(obj)
                continue
            far = t["far"]
            leaf = self.leaf(t["op"], lib if not far else "BF"[lib == "B"])
            if far:
                leaf = self.to_f(leaf) if lib == "F" else self.to_b(leaf)
            if t["t"] == "start":
                obj = leaf
            elif isinstance(obj, (bijx.Distribution, fd.AbstractDistribution)):
                obj = bijx.Transformed(obj, leaf) if lib == "B" else fd.Transformed(obj, leaf)
            else:
                pair = (obj, leaf) if t["t"] == "post" else (leaf, obj)
                obj = bijx.Chain(*pair) if lib == "B" else fb.Chain(list(pair))
        return obj


def program(word):
    p = []
    for t in word:
        o = [dict(t["op"])]
        p = o if t["t"] == "start" else p + o if t["t"] == "post" else o + p if t["t"] == "pre" else [dict(v, inv=not v["inv"]) for v in p[::-1]] if t["t"] == "inv" else p
    return p


def walk(p, x, c):
    """Inputs are chosen with this; outputs are judged by the specification."""
    big = 0
    for o in p:
        k, v, s = o["k"], o["v"], -1 if o["inv"] else 1
        if k == "scale":
            x = [a * Fraction(2) ** (s * b) for a, b in zip(x, v)]
        elif k in ("shift", "cond"):
            r = 1 if k == "shift" else sum((i + 1) * a for i, a in enumerate(c))
            x = [a + s * b * r for a, b in zip(x, v)]
        elif k == "perm":
            x = [x[j - 1] for j in v] if s > 0 else [x[v.index(j + 1)] for j in range(len(x))]
        elif s > 0:
            x = [x[i] + (v[i] * x[i - 1] if i else 0) for i in range(len(x))]
        else:
            y = []
            for i in range(len(x)):
                y.append(x[i] - (v[i] * y[-1] if i else 0))
            x = y
        big = max([big] + [abs(a) for a in x] + [Fraction(a.denominator, 64) for a in x if isinstance(a, Fraction)])
    return x, big


EVENTS = {1: [(), (1,), (1, 1)], 2: [(2,), (2,), (2, 1), (1, 2)], 3: [(3,), (3,), (1, 3)]}
CONDS = [(), (2,), (1,), (2, 1)]
BSH = [(), (3,), (2, 2), (1,)]


def maps(out, i, case, seed):
    rng = np.random.default_rng(seed + i)
    n = case["n"]
    ev = EVENTS[n][int(rng.integers(len(EVENTS[n])))]
    cond = CONDS[int(rng.integers(4))] if case["cond"] else None
    name = ["condition", "ctx"][int(rng.integers(2))]
    p, S = program(case["word"]), 4096
    label = " ".join(t["t"] + ("*" if t["far"] else "") + (":" + t["op"]["k"] if t["op"]["v"] else "") for t in case["word"])
    base = dict(ep=f"w{i}", key=f"{label} from {case['word'][0]['lib']} event {ev} cond {cond} {name}")
    def go():
        obj = Maker(ev, cond, name, rng).build(case["word"])
        lib = "B" if isinstance(obj, bijx.Bijection) else "F"
        evs = [dict(ev="Word", word=case["word"], kind="map", lib=lib)]
        for r in range(4):
            fwd = r % 2 == 0
            bsh = BSH[int(rng.integers(4))]
            B = int(np.prod(bsh, dtype=int))
            same = bool(rng.integers(2)) or bsh == ()            # one condition for the whole batch
            nc = int(np.prod(cond or (), dtype=int))
            cs = [rng.integers(-2, 3, nc).tolist()] * B if same else rng.integers(-2, 3, (B, nc)).tolist()
            if cond is None:
                cs = [[]] * B
            xs = rng.integers(-6, 7, (B, n)).tolist()
            run = p if fwd else [dict(v, inv=not v["inv"]) for v in p[::-1]]
            if any(walk(run, [Fraction(a) for a in x], c)[1] > 16384 for x, c in zip(xs, cs)):
                continue
            x = f(xs).reshape(bsh + ev)
            cv = None if cond is None else (f(cs[0]).reshape(cond) if same else f(cs).reshape(bsh + cond))
            mode = int(rng.integers(4))
            ld0 = rng.integers(-4, 5, B)
            if lib == "B":
                l0 = f(ld0).reshape(bsh)
                call = lambda m, x, c: (m.forward if fwd else m.reverse)(x, l0, **({} if c is None else {name: c}))
                y, ld = [lambda: call(obj, x, cv), lambda: jax.jit(lambda x: call(obj, x, cv))(x), lambda: nnx.jit(call)(obj, x, cv),
                         lambda: call(nnx.merge(*nnx.split(obj)), x, cv)][mode]()
            else:
                call = lambda m, x, c: (m.transform_and_log_det if fwd else m.inverse_and_log_det)(x, c)
                if mode == 3:
                    call = lambda m, x, c: ((m.transform if fwd else m.inverse)(x, c), jnp.zeros(()))
                v = call
                for _ in bsh:
                    v = eqx.filter_vmap(v, in_axes=(None, 0, None if same else 0)) if mode else (lambda w: lambda m, x, c: jax.vmap(lambda x, c: w(m, x, c), in_axes=(0, None if same else 0))(x, c))(v)
                y, ld = (eqx.filter_jit(v) if mode == 1 else v)(obj, x, cv)
            evs.append(dict(ev="Apply", fwd=fwd, S=S, cs=cs, xs=[[a * S for a in x] for x in xs], ld0=[int(a) << 20 for a in ld0],
                            ys=[ints(np.rint(v * S * 64) / 64) for v in np.asarray(y).reshape(B, n)], lds=[] if lib == "F" and mode == 3 else q(ld),
                            yshape=shape(y), ldshape=shape(ld), bshape=list(bsh), eshape=list(ev)))
        for v in evs:
            v["key"] = base["key"] + (f" {'forward' if v['fwd'] else 'reverse'} batch {v['bshape']}" if "fwd" in v else "")
        return evs
    guard(out, "bridge", base, go)


def dists(out, hout, i, case, seed, hist):
    rng = np.random.default_rng(seed + i)
    n = case["n"]
    ev = EVENTS[n][int(rng.integers(len(EVENTS[n])))]
    cond = CONDS[int(rng.integers(4))] if case["cond"] else None
    name = ["condition", "ctx"][i % 2]
    p, S = program(case["word"]), 64
    label = "dist " + " ".join(t["t"] + ("*" if t["far"] else "") + (":" + t["op"]["k"] if t["op"]["v"] else "") for t in case["word"])
    base = dict(ep=f"d{i}", key=f"{label} from {case['word'][0]['lib']} event {ev} cond {cond} {name}")
    nc = int(np.prod(cond or (), dtype=int))
    def go():
        obj = Maker(ev, cond, name, rng).build(case["word"])
        lib = "B" if isinstance(obj, bijx.Distribution) else "F"
        evs = [dict(ev="Word", word=case["word"], kind="dist", lib=lib)]
        for r in range(3):
            bsh = BSH[int(rng.integers(4))]
            B = int(np.prod(bsh, dtype=int))
            same = bool(rng.integers(2)) or bsh == ()
            cs = [rng.integers(-2, 3, nc).tolist()] * B if same else rng.integers(-2, 3, (B, nc)).tolist()
            if cond is None:
                cs = [[]] * B
            cv = None if cond is None else (f(cs[0]).reshape(cond) if same else f(cs).reshape(bsh + cond))
            zs = rng.integers(-3, 4, (B, n)).tolist()
            imgs = [walk(p, [Fraction(a) for a in z], c) for z, c in zip(zs, cs)]
            if any(b > 16384 for _, b in imgs):
                continue
            x = f([[float(a) for a in v] for v, _ in imgs]).reshape(bsh + ev)
            kw = {} if cond is None else {name: cv}
            call = (lambda m, x: m.log_density(x, **kw)) if lib == "B" else (lambda m, x: m.log_prob(x, cv))
            mode = int(rng.integers(3))
            ld = [lambda: call(obj, x), lambda: jax.jit(lambda x: call(obj, x))(x), lambda: (nnx.jit if lib == "B" else eqx.filter_jit)(call)(obj, x)][mode]()
            evs.append(dict(ev="Score", S=S, xs=[[int(a * S) for a in v] for v, _ in imgs], cs=cs, lds=q(ld), ldshape=shape(ld), bshape=list(bsh)))
            if lib == "F":
                k = jax.random.key(int(rng.integers(1 << 30)))
                cb = () if same or cond is None else bsh
                full = BSH[int(rng.integers(4))]
                x, lp = obj.sample_and_log_prob(k, full, cv)
                rows = lambda v: [digest(a) for a in np.asarray(v).reshape((-1,) + ev)]
                evs.append(dict(ev="FDraw", x=rows(x), ld=q(lp), rescored=q(obj.log_prob(x, cv)), again=rows(obj.sample_and_log_prob(k, full, cv)[0]), alone=rows(obj.sample(k, full, cv)),
                                other=rows(obj.sample(jax.random.fold_in(k, 1), full, cv)), xshape=shape(x), ldshape=shape(lp), bshape=list(full + cb), eshape=list(ev)))
        for v in evs:
            v["key"] = base["key"]
        return evs
    guard(out, "bridge", base, go)
    # samples: the history of draws on the bijx side, and counts on both
    c0 = rng.integers(-2, 3, nc)
    cv = None if cond is None else f(c0).reshape(cond)
    A = np.array([[float(a) for a in walk(p, [Fraction(int(r == j)) for r in range(n)], c0.tolist())[0]] for j in range(-1, n)])
    white = lambda x: np.linalg.solve((A[1:] - A[0]).T, (x.reshape(-1, n) - A[0]).T).T
    def sample():
        obj = Maker(ev, cond, name, np.random.default_rng(i)).build(case["word"])
        N = 4096
        k = jax.random.key(seed + i)
        if isinstance(obj, bijx.Distribution):
            # batched conditions belong to the elements of the batch
            kw = {} if cond is None else {name: jnp.broadcast_to(cv, (N,) + cond) if i % 2 else cv}
            x = obj.sample((N,) if i % 4 < 2 or kw and i % 2 else (64, 64), rng=k, **kw)[0]
        else:
            x = obj.sample(k, (N,) if i % 2 else (64, 64), cv)
        w = white(np.asarray(x))
        pair = [(w[:, a], w[:, b]) for a in range(n) for b in range(a)] + [(w[h:, 0], w[:-h, -1]) for h in (1, 2, 64)]
        return dict(ev="Counts", n=len(w), cnt=cells(w), cor=[int(round(float(np.dot(a, b)) / math.sqrt(len(a)) * 2**20)) for a, b in pair])
    guard(hout, "sample", dict(base, ep=f"n{i}"), sample)
    if hist is not None:
        try:
            lib = "B" if isinstance(Maker(ev, cond, name, np.random.default_rng(i)).build(case["word"]), bijx.Distribution) else "F"
        except Exception:
            lib = "F"
        if lib == "B":
            def make(r):
                d = Maker(ev, cond, name, np.random.default_rng(i)).build(case["word"])
                inner = d
                while isinstance(inner, bijx.Transformed):
                    inner = inner.prior
                inner.rngs = nnx.data(r)
                return d
            history(Fixed(base["key"], make, ev, {} if cond is None else {name: cv}, tol=256), i, hist, hout)


def maps_job(jobs):
    out = []
    for i, c, seed in jobs:
        maps(out, i, c, seed)
    return out


def dists_job(jobs):
    out, hout = [], []
    for i, c, seed, h in jobs:
        dists(out, hout, i, c, seed, h)
    return [dict(v, _h=0) for v in out] + [dict(v, _h=1) for v in hout]


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCBridge", "MCBridge.cfg" if ctx.quick else "MCBridgeDeep.cfg")
    cases = ctx.generate("MCBridge", cfg="MCBridgeSim.cfg", extra=("-simulate", f"num={360 if ctx.quick else 6000}", "-depth", "10", "-seed", str(ctx.seed + 21)))
    words = ctx.generate("MCDist", cfg="MCDistSim.cfg", extra=("-simulate", f"num={40 if ctx.quick else 400}", "-depth", "10", "-seed", str(ctx.seed + 6)))
    mp = [(i, c, ctx.seed * 1000) for i, c in enumerate(cases) if c["kind"] == "map"]
    ds = [(i, c, ctx.seed * 1000, words[i % len(words)] if not ctx.quick or i % 3 == 0 else None) for i, c in enumerate(cases) if c["kind"] == "dist"]
    if ctx.quick:
        # words that carry a condition into the other library first
        carried = lambda c: any(v["op"]["k"] == "cond" and w["t"] == "bridge" for j, w in enumerate(c["word"]) for v in c["word"][:j])
        ds = [d for d in ds if carried(d[1])][:48] + [d for d in ds if not carried(d[1])][:64]
    m = 16
    evs = ctx.pmap("checks.c19", "job", [("maps_job", mp[j::m]) for j in range(m)] + [("dists_job", ds[j::m]) for j in range(m)])
    main = [{k: v for k, v in e.items() if k != "_h"} for e in evs if not e.get("_h")]
    samp = [{k: v for k, v in e.items() if k != "_h"} for e in evs if e.get("_h")]
    ctx.validate("BridgeTrace", main, cfg="Trace.cfg")
    ctx.validate("DistTrace", samp, cfg="Trace.cfg")
