"""C07: distributions against spec/Dist.tla, transformed ones with the exact
programs of spec/Compose.tla."""
import math
from statistics import NormalDist

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx import lie
from checks import c03
from checks.c18 import guard
from harness.core import err, ints, q, shape

S = 65536
SHAPES = {1: (), 2: (3,), 3: (2, 2), 4: (1,)}
EDGE = np.array([NormalDist().inv_cdf(k / 8) for k in range(1, 8)])
f = lambda v: jnp.asarray(v, dtype=float)
ID = dict(k="id", i=1, n=0, ps=[])
KW0 = dict(c=0, g=0, hc=False, hg=False)


def factor(rng, n):
    L = np.tril(rng.integers(-2, 3, (n, n)))
    L[np.diag_indices(n)] = rng.choice([1, 2, 4], n)
    return L, rng.integers(-3, 4, n)


def flat(L):
    return L[np.tril_indices(len(L))]


def base_dist(fam, how, L, mean, event, rngs=None):
    """The base distribution built in one of the ways the library offers."""
    n = len(mean)
    if fam == "normal":
        return bijx.IndependentNormal(event, rngs=rngs)
    if fam == "uniform":
        return bijx.IndependentUniform(event, rngs=rngs)
    if fam == "diag":
        s = np.diag(L)
        return [lambda: bijx.DiagonalNormal(f(mean), f(s), rngs=rngs), lambda: bijx.DiagonalNormal(f(mean), f(-s), rngs=rngs),
                lambda: bijx.DiagonalNormal.given_variances(f(mean), f(s * s), rngs=rngs),
                lambda: bijx.DiagonalNormal.given_variances(bijx.Const(f(mean)), bijx.Const(f(s * s)), rngs=rngs),
                lambda: bijx.DiagonalNormal(nnx.Param(f(mean)), bijx.Const(f(s)), rngs=rngs)][how % 5]()
    Ln = L.copy()
    Ln[np.diag_indices(n)] *= -1
    return [lambda: bijx.MultivariateNormal(f(mean), f(flat(L)), rngs=rngs), lambda: bijx.MultivariateNormal(f(mean), f(flat(Ln)), rngs=rngs),
            lambda: bijx.MultivariateNormal.given_cov(f(mean), f(L @ L.T), rngs=rngs),
            lambda: bijx.MultivariateNormal.given_cov(bijx.Const(f(mean)), f(L @ L.T), rngs=rngs, var_cls=nnx.Param)][how % 4]()


def nest(prior, b, prog):
    """A transformed distribution; chains also as repeated transformations."""
    if prog["k"] == "chain" and len(prog["ps"]) > 1:
        d = prior
        for c in prog["ps"]:
            d = bijx.Transformed(d, c03.build(c))
        return d
    return bijx.Transformed(prior, b)


def fit(kw):
    return {k: float(v) for k, v, h in (("c", kw["c"], kw["hc"]), ("g", kw["g"], kw["hg"])) if h}


def exact(jobs):
    out = []
    for i, case in jobs:
        rng = np.random.default_rng(i)
        fam = ["mvn", "normal", "diag", "uniform", "mvn"][i % 5]
        prog = case["prog"] if case else ID
        event = (2,) if case else [(), (3,), (2, 2), (1,), (4,), (2, 1, 2), (1, 2, 1, 2)][i // 5 % 7]
        if fam in ("mvn", "diag"):
            event = (2,) if case else (int(rng.integers(1, 5)),)
        n = int(np.prod(event, dtype=int))
        L, mean = factor(rng, n)
        if fam == "diag":
            L = np.diag(np.diag(L))
        if fam in ("normal", "uniform"):
            L, mean = np.eye(n, dtype=int), np.zeros(n, int)
        kw = dict(c=3, g=1, hc=True, hg=bool(i % 3)) if case and i % 2 else KW0
        kw = dict(kw, g=kw["g"] if kw["hg"] else 0)
        bsh = [(), (3,), (2, 2), (1,), (1, 3)][int(rng.integers(5))]
        B = int(np.prod(bsh, dtype=int))
        how = int(rng.integers(20))
        base = dict(ep=f"x{i}", key=f"{fam} {how} event {event} batch {bsh} prog {' '.join(case['word']) if case else '-'} kw {fit(kw)}")
        def go():
            w = rng.integers(-3, 4, (B, n))
            z = mean + w @ L.T if fam != "uniform" else rng.choice([.25, .5, .75, .5, .25, .75, 1.25, -.25], (B, n))
            prior = base_dist(fam, how, L, mean, event)
            z = f(z).reshape(bsh + event)
            if case:
                b = c03.build(prog)
                d = nest(prior, b, prog) if how % 2 else bijx.Transformed(prior, b)
                x = b.forward(z, jnp.zeros(bsh), **fit(kw))[0]
            else:
                d, x = prior, z
            ld = (jax.jit(lambda v: d.log_density(v, **fit(kw))) if how % 3 == 0 else lambda v: d.log_density(v, **fit(kw)))(x)
            return dict(ev="Exact", prog=prog, kw=kw, base=dict(fam="uniform" if fam == "uniform" else "normal", mean=mean.tolist(), L=L.tolist()),
                        ys=[ints(r * S) for r in np.asarray(x).reshape(B, n)], ld=q(ld), ldshape=shape(ld), bshape=list(bsh))
        guard(out, "log_density", base, go)
    return out


class Fixed:
    """Name, maker from rngs, event shape, keyword arguments, whitening."""

    def __init__(self, name, make, event, kw=None, white=None, tol=64):
        self.name, self.make, self.event, self.kw, self.white, self.tol = name, make, event, kw or {}, white, tol


def catalogue(seed, progs=()):
    rng = np.random.default_rng(seed)
    E = []
    nrm = lambda x, n: x.reshape(-1, n)
    uni = lambda x, n: np.vectorize(NormalDist().inv_cdf)(np.clip(x.reshape(-1, n), 1e-12, 1 - 1e-12))
    for ev in ((), (3,), (2, 2), (1,), (2, 1, 2)):
        n = int(np.prod(ev, dtype=int))
        E.append(Fixed(f"normal {ev}", lambda r, ev=ev: bijx.IndependentNormal(ev, rngs=r), ev, white=lambda x, n=n: nrm(x, n)))
        E.append(Fixed(f"uniform {ev}", lambda r, ev=ev: bijx.IndependentUniform(ev, rngs=r), ev, white=lambda x, n=n: uni(x, n)))
    for n in (1, 2, 3, 4):
        for fam in ("mvn", "diag"):
            L, mean = factor(rng, n)
            if fam == "diag":
                L = np.diag(np.diag(L))
            for how in range(4):
                if n > 2 and how % 2 == n % 2:
                    continue
                E.append(Fixed(f"{fam} {n} {how}", lambda r, a=(fam, how, L, mean, (n,)): base_dist(*a, rngs=r), (n,),
                               white=lambda x, n=n, L=L, m=mean: np.linalg.solve(L, (x.reshape(-1, n) - m).T).T))
    E.append(Fixed("mvn from shapes", lambda r: bijx.MultivariateNormal((3,), rngs=r), (3,)))
    E.append(Fixed("diag from shapes", lambda r: bijx.DiagonalNormal.given_dim(3, rngs=r), (3,)))
    E.append(Fixed("haar 2", lambda r: lie.HaarDistribution(2, rngs=r), (2, 2)))
    E.append(Fixed("haar 3 lattice", lambda r: lie.HaarDistribution.periodic_gauge_lattice(3, (2, 2), rngs=r), (2, 2, 2, 3, 3)))
    E.append(Fixed("sigmoid of normal", lambda r: bijx.Transformed(bijx.IndependentNormal((2,), rngs=r), bijx.Sigmoid()), (2,),
                   white=lambda x: np.log(x.reshape(-1, 2) / (1 - x.reshape(-1, 2)))))
    E.append(Fixed("tan of uniform", lambda r: bijx.Transformed(bijx.IndependentUniform((2, 2), rngs=r), bijx.Tan()), (2, 2),
                   white=lambda x: uni(np.arctan(x) / np.pi + .5, 4), tol=256))
    E.append(Fixed("spline of uniform", lambda r: bijx.Transformed(bijx.IndependentUniform((2,), rngs=r), bijx.MonotoneRQSpline(4, (2,), rngs=nnx.Rngs(3))), (2,), tol=256))
    for i, c in enumerate(progs):
        L, mean = factor(rng, 2)
        fam = ["mvn", "diag", "normal"][i % 3]
        if fam == "diag":
            L = np.diag(np.diag(L))
        if fam == "normal":
            L, mean = np.eye(2, dtype=int), np.zeros(2, int)
        kw = [{}, dict(c=3.0, g=1.0)][i % 2]
        def make(r, a=(fam, i, L, mean, (2,)), c=c, i=i):
            pr = base_dist(*a, rngs=r)
            return nest(pr, c03.build(c["prog"]), c["prog"]) if i % 2 else bijx.Transformed(pr, c03.build(c["prog"]))
        def white(x, c=c, L=L, m=mean, kw=kw):
            b = c03.build(c["prog"])
            y = np.asarray(b.forward(f([[0, 0], [1, 0], [0, 1]]), jnp.zeros(3), **kw)[0])
            M = (y[1:] - y[0]).T                     # programs are affine
            z = np.linalg.solve(M, (x.reshape(-1, 2) - y[0]).T).T
            return np.linalg.solve(L, (z - m).T).T
        E.append(Fixed(f"{fam} through {' '.join(c['word'])} {kw}", make, (2,), kw, white, tol=256))
    return E


def digest(x):
    """Exact contents, folded to integers."""
    a = np.asarray(x)
    a = np.stack([a.real, a.imag], -1) if np.iscomplexobj(a) else a
    b = np.ascontiguousarray(a, dtype=np.float64).view(np.int64).ravel()
    return [int(v % 999999937) for v in b]


def history(E, i, cs, out):
    e = E
    base = dict(ep=f"h{i}", key=f"history {e.name}")
    def go():
        evs = [dict(ev="New", seed=1)]
        d = e.make(nnx.Rngs(11))
        last = None
        for c in cs["calls"]:
            if c["op"] == "copy":
                d = e.make(nnx.Rngs(10 + c["k"]))
                if e.name.endswith("from shapes"):        # parameters are drawn too: keep the first ones
                    nnx.update(d, nnx.state(first(e), nnx.Param))
                evs.append(dict(ev="Copy", k=c["k"]))
            elif c["op"] == "score":
                if last is None:
                    x, ld = d.sample(SHAPES[1], rng=jax.random.key(99), **e.kw)
                    continue
                evs.append(dict(ev="Score", ld=q(d.log_density(last, **e.kw)), tol=e.tol))
            else:
                bsh = SHAPES[c["b"]]
                if e.name.endswith("from shapes"):
                    nnx.update(d, nnx.state(first(e), nnx.Param))
                if c["op"] == "key":
                    x, ld = d.sample(bsh, rng=jax.random.key(c["k"]), **e.kw) if not (bsh == () and i % 2) else d.sample(rng=jax.random.key(c["k"]), **e.kw)
                else:
                    x, ld = d.sample(bsh, **e.kw) if not (bsh == () and i % 2) else d.sample(**e.kw)
                re = d.log_density(x, **e.kw)
                dens = d.density(x, **e.kw)
                n = int(np.prod(bsh, dtype=int))
                rows = [digest(r) for r in np.asarray(x).reshape((n,) + e.event)]
                big = np.asarray(re) < 8
                evs.append(dict(ev="Draw", op=c["op"], k=c["k"], b=c["b"], x=digest(x), rows=rows, ld=q(ld), rescored=q(re), tol=e.tol,
                                dens=q(np.where(big, dens, 0)), expld=q(np.where(big, np.exp(np.asarray(re)), 0)),
                                xshape=shape(x), ldshape=shape(ld), rshape=shape(re), bshape=list(bsh), eshape=list(e.event), got=list(d.get_batch_shape(x))))
                last = x
        for v in evs:
            v["key"] = base["key"]
        return evs
    guard(out, "sample", base, go)


_first = {}


def first(e):
    if e.name not in _first:
        _first[e.name] = e.make(nnx.Rngs(11))
    return _first[e.name]


def histories(jobs):
    out = []
    for seed, progs, todo in jobs:
        cat = catalogue(seed, progs)
        for i, j, cs in todo:
            history(cat[j], i, cs, out)
    return out


def cells(w):
    """Counts in eight cells for components, their sums and differences."""
    n, m = w.shape
    cols = [w[:, j] for j in range(m)] + [(w[:, j] + w[:, k]) / math.sqrt(2) for j in range(m) for k in range(j)] + [(w[:, j] - w[:, k]) / math.sqrt(2) for j in range(m) for k in range(j)]
    return [np.bincount(np.digitize(c, EDGE), minlength=8).tolist() for c in cols[:12]]


def counts(jobs):
    out = []
    for seed, progs, idx, N in jobs:
        cat = catalogue(seed, progs)
        for j in idx:
            e = cat[j]
            if e.white is None:
                continue
            base = dict(ep=f"n{j}", key=f"counts {e.name}")
            def go():
                d = e.make(nnx.Rngs(seed + 5))
                n = int(math.isqrt(N)) ** 2
                lay = j % 4
                if lay == 0:
                    x = d.sample((n,), rng=jax.random.key(seed + j), **e.kw)[0]
                elif lay == 1:
                    x = d.sample((int(math.isqrt(n)),) * 2, rng=jax.random.key(seed + j), **e.kw)[0]
                elif lay == 2:
                    x = jax.vmap(lambda k: d.sample((), rng=k, **e.kw)[0])(jax.random.split(jax.random.key(seed + j), n))
                else:
                    x = jnp.stack([d.sample((n // 8,), **e.kw)[0] for _ in range(8)])
                w = e.white(np.asarray(x).reshape((-1,) + e.event))
                n = len(w)
                pair = [(w[:, a], w[:, b]) for a in range(w.shape[1]) for b in range(a)] + [(w[h:, 0], w[:-h, -1]) for h in (1, 2, int(math.isqrt(n)), n // 8)]
                return dict(ev="Counts", n=n, cnt=cells(w), cor=[int(round(float(np.dot(a, b)) / math.sqrt(len(a)) * 2**20)) for a, b in pair])
            guard(out, "sample", base, go)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCDist", "MCDist.cfg" if ctx.quick else "MCDistDeep.cfg")
    rng = ctx.nprng("c07")
    small = ctx.generate("Compose")
    words = ctx.generate("MCDist", cfg="MCDistSim.cfg", extra=("-simulate", f"num={120 if ctx.quick else 1200}", "-depth", "10", "-seed", str(ctx.seed + 9)))
    kwp = [c for c in small if "kw" in c["word"]]
    npick = 90 if ctx.quick else 1200
    progs = [small[j] for j in rng.choice(len(small), npick // 2, replace=False)] + [kwp[j] for j in rng.choice(len(kwp), npick // 2, replace=False)]
    ex = [(i, progs[i // 2] if i % 2 or i % 3 else None) for i in range(2 * npick)]
    few = [progs[j] for j in rng.choice(len(progs), 6 if ctx.quick else 40, replace=False)]
    ncat = len(catalogue(ctx.seed, few))
    todo = [(i, i % ncat, c) for i, c in enumerate(words[: ncat if ctx.quick else 12 * ncat])]
    m = 8
    evs = ctx.pmap("checks.c07", "job", [("exact", ex[j::m]) for j in range(m)] + [("histories", [(ctx.seed, few, todo[j::m])]) for j in range(m)]
                   + [("counts", [(ctx.seed, few, list(range(ncat))[j::4], 4096 if ctx.quick else 1 << 16)]) for j in range(4)])
    ctx.validate("DistTrace", evs, cfg="Trace.cfg")
