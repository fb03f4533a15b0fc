"""C21: frozen, constant and trainable parameters against spec/Freeze.tla."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax import nnx

import bijx
from bijx.utils import FrozenFilter, default_wrap, noise_model
from checks.c18 import guard
from harness.core import q

CLS = dict(param=nnx.Param, const=bijx.Const, stat=nnx.BatchStat)
NAME = {v: k for k, v in CLS.items()}
STEP = 64
f = lambda v: jnp.asarray(v, float)
TRAINABLE = nnx.All(nnx.Param, nnx.Not(FrozenFilter))


class Field(bijx.Bijection):
    """Keeps a bijection under the key "frozen" of a dictionary."""

    def __init__(self, b):
        self.parts = nnx.Dict(frozen=b)

    def forward(self, x, log_density, **kw):
        return self.parts["frozen"].forward(x, log_density, **kw)

    def reverse(self, x, log_density, **kw):
        return self.parts["frozen"].reverse(x, log_density, **kw)


class Pair(bijx.Bijection):
    """Keeps a bijection under names that merely resemble "frozen"."""

    def __init__(self, b):
        self.unfrozen = nnx.List([b])

    def forward(self, x, log_density, **kw):
        return self.unfrozen[0].forward(x, log_density, **kw)

    def reverse(self, x, log_density, **kw):
        return self.unfrozen[0].reverse(x, log_density, **kw)


def scan(b):
    """Two layers on top of each other, with parameters of the same numbers."""
    graph, state = nnx.split(b)
    return bijx.ScanChain(nnx.merge(graph, jax.tree.map(lambda v: jnp.stack([v, v]), state)))


WRAP = dict(frozen=bijx.Frozen, inverse=bijx.Inverse, scan=scan, field=Field, cond=bijx.CondInverse, pair=Pair, partial=lambda b: bijx.bijections.meta.Partial(b))


def leaf(cs, n, how):
    v = [CLS[c](f(STEP * (n + k + 1))) for k, c in enumerate(cs)]
    if len(v) == 1:
        return [lambda: bijx.Shift(v[0]), lambda: bijx.Scaling(v[0]), lambda: bijx.Power(v[0])][how % 3]()
    return [lambda: bijx.AffineLinear(*v), lambda: bijx.GaussianCDF(*v), lambda: bijx.AffineLinear(scale=v[0], shift=v[1])][how % 3]()


def found(m):
    """[number, change, class] of all parameters; a leaf that disagrees with itself has number 0."""
    out = []
    for path, v in nnx.to_flat_state(nnx.state(m)):
        if isinstance(v, nnx.RngState):
            continue
        a = np.asarray(v.get_value())
        if a.dtype == bool:
            continue
        n = np.rint(a / STEP)
        d = a - STEP * n
        ok = np.all(n == n.flat[0]) and np.all(d == d.flat[0]) and np.all(d == np.rint(d))
        out.append([int(n.flat[0]) if ok else 0, int(d.flat[0]) if ok else 0, NAME.get(type(v), type(v).__name__)])
    return out


def filt(F):
    k = F["f"]
    if k == "is":
        return CLS[F["c"]]
    if k == "frozen":
        return FrozenFilter
    if k == "all":
        return ...
    if k == "not":
        return nnx.Not(filt(F["a"]))
    return (nnx.Any if k == "any" else nnx.All)(filt(F["a"]), filt(F["b"]))


def isfloat(path, v):
    v = v.get_value() if hasattr(v, "get_value") else v
    return hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jnp.floating)


def shifted(state, d):
    return jax.tree.map(lambda x: x + d if jnp.issubdtype(x.dtype, jnp.floating) else x, state)


def total(m):
    return sum(jnp.sum(x) for x in jax.tree.leaves(nnx.state(m)) if jnp.issubdtype(x.dtype, jnp.floating))


def train(m, d, how):
    """One step of descent on minus the sum of all parameters; single elements move by d."""
    if how % 3 == 0:
        opt = nnx.Optimizer(m, optax.sgd(d), wrt=TRAINABLE)
        g = nnx.grad(lambda m: -total(m), argnums=nnx.DiffState(0, TRAINABLE))(m)
        opt.update(m, g)
        return m
    if how % 3 == 1:
        graph, frozen, params, rest = nnx.split(m, FrozenFilter, nnx.Param, ...)
        g = jax.grad(lambda p: -total(nnx.merge(graph, frozen, p, rest)))(params)
        return nnx.merge(graph, frozen, jax.tree.map(lambda p, g: p - d * g, params, g), rest)
    params = nnx.state(m, TRAINABLE)
    nnx.update(m, jax.tree.map(lambda p: p + d, params))
    return m


def copied(m, how):
    k = how % 5
    if k == 0:
        return nnx.clone(m)
    if k == 1:
        return nnx.merge(*nnx.split(m, FrozenFilter, nnx.Param, ...))
    if k == 2:
        return copy.deepcopy(m)
    if k == 3:
        return nnx.jit(lambda m: m)(m)
    graph, state = nnx.split(m)
    leaves, tree = jax.tree.flatten(state)
    return nnx.merge(graph, jax.tree.unflatten(tree, leaves))


def programs(jobs):
    out = []
    for i, case, seed in jobs:
        rng = np.random.default_rng(seed + i)
        how = int(rng.integers(10**6))
        word = [dict(t) for t in case["word"]]
        k = next(j for j, t in enumerate(word) if "filter" in t or "fs" in t)
        finish = ["none", "transformed", "mixture", "none"][i % 4]
        toks, ops = word[:k], word[k:]
        for j, o in enumerate(ops):
            if o["t"] == "noise" and (how + j) % 3 and o["filter"]["f"] != "any":
                other = [dict(f="is", c=c) for c in CLS] + [dict(f="frozen")]
                two = [o["filter"], other[(how // 7 + j) % 4]]
                o["filter"] = dict(f="any", a=two[how % 2], b=two[1 - how % 2])
        base = dict(ep=f"p{i}", key=f"{finish} of {' '.join(t['t'] for t in toks)}")
        out.append(dict(base, ev="New"))
        if finish == "mixture":
            last = [dict(t="leaf", x=[["param", "const"][how % 2]]), dict(t="join", x=[])]
        else:
            last = []
        out += [dict(base, ev="Build", t=t["t"], x=t["x"]) for t in toks + last]
        def build():
            st, n = [], 0
            for j, t in enumerate(toks):
                if t["t"] == "leaf":
                    st.append(leaf(t["x"], n, how + j))
                    n += len(t["x"])
                elif t["t"] == "join":
                    b = st.pop()
                    st[-1] = bijx.Chain(st[-1], b) if (how + j) % 2 else bijx.Chain(*[st[-1], bijx.Chain(b)])
                elif t["t"] == "twice":
                    st[-1] = bijx.Chain(st[-1], st[-1])
                else:
                    st[-1] = WRAP[t["t"]](st[-1])
            m, n = st[0], n
            if finish == "transformed":
                m = bijx.Transformed(bijx.IndependentNormal((), rngs=nnx.Rngs(0) if how % 3 else None), m)
            if finish == "mixture":
                graph, state = nnx.split(bijx.Transformed(bijx.IndependentNormal(()), m))
                stack = nnx.merge(graph, jax.tree.map(lambda v: jnp.stack([v, v]), state))
                m = bijx.MixtureStack(stack, CLS[last[0]["x"][0]](jnp.full(2, STEP * (n + 1.0))), rngs=nnx.Rngs(1) if how % 2 else None)
            return m
        try:
            m = build()
        except Exception as ex:
            guard(out, "building", base, lambda ex=ex: (_ for _ in ()).throw(ex))
            continue
        special = any(t["t"] == "cond" for t in toks) or any(isinstance(v, nnx.RngState) for _, v in nnx.to_flat_state(nnx.state(m)))
        guard(out, "state", base, lambda: dict(ev="State", leaves=found(m)))
        try:
            for j, o in enumerate(ops):
                t = o["t"]
                if t == "split":
                    ids = lambda s: [r[0] for r in found(s)]
                    groups = nnx.split(m, *[filt(F) for F in o["fs"]], ...)[1:]
                    def of(s):
                        return [r[0] for r in found(nnx.State.from_flat_path(nnx.to_flat_state(s)) if not isinstance(s, nnx.State) else s)]
                    g = [0]
                    if (how + j) % 2:
                        gr = nnx.grad(lambda m: -total(m), argnums=nnx.DiffState(0, TRAINABLE))(m)
                        here = {p: r for (p, _), r in zip(plain(nnx.state(m)), found(m))}
                        g = [here[p][0] for p, v in plain(gr) if np.any(np.asarray(v.get_value() if hasattr(v, "get_value") else v) != 0)]
                    out.append(dict(base, ev="Split", fs=o["fs"], groups=[of(s) for s in groups], grads=g))
                    continue
                out.append(dict(base, ev="Hist", t=t, filter=o["filter"], d=o["d"]))
                if t == "update":
                    F = filt(o["filter"])
                    if (how + j) % 2:
                        graph, sel, rest = nnx.split(m, F, ...)
                        m = nnx.merge(graph, shifted(sel, o["d"]), rest)
                    else:
                        nnx.update(m, shifted(nnx.state(m, F), o["d"]))
                elif t == "noise":
                    F = o["filter"]
                    fs = [filt(F["a"]), filt(F["b"])] if F["f"] == "any" else [] if F == dict(f="is", c="param") and (how + j) % 2 else [filt(F)]
                    fs = [nnx.All(g, isfloat) for g in fs] if special else fs
                    before = found(m)
                    r = [jax.random.key(j), nnx.Rngs(j), jax.random.PRNGKey(j)][(how + j) % 3]
                    new = noise_model(r, m, o["d"], *fs, noise_fn=lambda k, s: jnp.ones(s))
                    real = [noise_model([jax.random.key(j + how), nnx.Rngs(j + how)][w > 2], m, s, *fs) for w, s in enumerate((.25, .5, .25))]
                    rows = [changes(m, v) for v in real]
                    prev = dict(base, ev="Noise", filter=F, d=[[a[0], a[1], b[1]] for a, b in zip(rows[0], rows[1])], kept=found(m) == before, again=rows[0] == rows[2])
                    out.insert(len(out) - 1, prev)
                    m = new
                elif t == "grad":
                    m = train(m, float(o["d"]), how + j)
                elif t == "freeze":
                    m = bijx.Frozen(m) if finish == "none" else Field(m)
                else:
                    m = copied(m, how + j)
                out.append(dict(base, ev="State", leaves=found(m)))
        except Exception as ex:
            def again(ex=ex):
                raise ex
            guard(out, "history", base, again)
    return out


def plain(state):
    return [(p, v) for p, v in nnx.to_flat_state(state) if not isinstance(v, nnx.RngState) and np.asarray(v.get_value() if hasattr(v, "get_value") else v).dtype != bool]


def changes(m, new):
    """[number, change of one element] for all elements of all parameters."""
    rows = []
    a, b = dict(plain(nnx.state(m))), dict(plain(nnx.state(new)))
    assert a.keys() == b.keys(), "parameters moved"
    for r, p in zip(found(m), a):
        d = np.asarray(b[p].get_value()) - np.asarray(a[p].get_value())
        rows += [[r[0], v] for v in q(d)]
    return rows


SH = [(), (2,), (3,), (1, 2), (2, 3)]
KINDS = ["array", "nparray", "param", "const", "stat", "shape", "listshape"]


def given(kind, sh, n):
    a = np.full(sh, float(n))
    return dict(array=lambda: jnp.asarray(a), nparray=lambda: a, param=lambda: nnx.Param(jnp.asarray(a)), const=lambda: bijx.Const(jnp.asarray(a)),
                stat=lambda: nnx.BatchStat(jnp.asarray(a)), shape=lambda: tuple(sh), listshape=lambda: list(sh))[kind]()


MAKE = [("default_wrap", 1, lambda r, a: nnx.Dict(x=default_wrap(a, rngs=r))), ("Shift", 1, lambda r, a: bijx.Shift(a, rngs=r)), ("Scaling", 1, lambda r, a: bijx.Scaling(a, rngs=r)),
        ("Power", 1, lambda r, a: bijx.Power(a, rngs=r)), ("BetaStretch", 1, lambda r, a: bijx.BetaStretch(a, rngs=r)), ("AffineLinear", 2, lambda r, a, b: bijx.AffineLinear(a, b, rngs=r)),
        ("GaussianCDF", 2, lambda r, a, b: bijx.GaussianCDF(a, b, rngs=r)), ("CubicRational", 3, lambda r, *a: bijx.CubicRational(*a, rngs=r)),
        ("SinhConjugation", 5, lambda r, *a: bijx.SinhConjugation(*a, rngs=r)), ("CubicConjugation", 4, lambda r, *a: bijx.CubicConjugation(*a, rngs=r)),
        ("Radial", 2, lambda r, *a: bijx.Radial(bijx.Tanh(), *a, rngs=r))]
VAR = [("wrap-cls", lambda r, c, a, sh: nnx.Dict(x=default_wrap(a, cls=c, init_cls=c, rngs=r)), 1), ("diagonal", lambda r, c, a, b, sh: bijx.DiagonalNormal(a, b, rngs=r, var_cls=c), 2),
       ("mvn", lambda r, c, a, b, sh: bijx.MultivariateNormal(a, b, rngs=r, var_cls=c), 2), ("mixture", lambda r, c, a, b, d, sh: bijx.GaussianMixture(a, b, d, rngs=r, var_cls=c), 3),
       ("full mixture", lambda r, c, a, b, d, sh: bijx.GaussianMixture(a, b, d, rngs=r, var_cls=c), 3),
       ("given_variances", lambda r, c, a, b, sh: bijx.DiagonalNormal.given_variances(a, b, rngs=r, var_cls=c), 2), ("given_cov", lambda r, c, a, b, sh: bijx.MultivariateNormal.given_cov(a, b, rngs=r, var_cls=c), 2)]


def variables(m, args, values):
    """[class, shape, number]: the number of the argument whose value the variable has."""
    out = []
    for _, v in nnx.to_flat_state(nnx.state(m)):
        if isinstance(v, nnx.RngState):
            continue
        a = np.asarray(v.get_value())
        n = 0
        for (k, sh, num), val in zip(args, values):
            if k not in ("shape", "listshape") and val is not None and val.shape == a.shape and np.allclose(val, a, atol=1e-9):
                n = num
        out.append([NAME.get(type(v), type(v).__name__), list(a.shape), n])
    return out


def wraps(jobs):
    out = []
    for i, seed in jobs:
        rng = np.random.default_rng(seed + i)
        r = nnx.Rngs(i)
        if i % 2 == 0:
            name, n, mk = MAKE[i // 2 % len(MAKE)]
            sh = SH[int(rng.integers(len(SH)))]
            args = [[KINDS[int(rng.integers(7))], list(sh), k + 3] for k in range(n)]
            vals = [given(*a) for a in args]
            base = dict(ep=f"k{i}", key=f"{name} of {[a[0] for a in args]} {sh}")
            def go():
                m = mk(r, *vals)
                held = [v for _, v in nnx.iter_graph(m) if isinstance(v, nnx.Variable)]
                return dict(ev="Wrap", default="param", args=args, got=variables(m, args, [np.full(sh, float(a[2])) for a in args]),
                            same=all(any(h is v for h in held) for v in vals if isinstance(v, nnx.Variable)))
            guard(out, "wrapping", base, go)
            continue
        name, mk, n = VAR[i // 2 % len(VAR)]
        c = ["param", "const", "stat"][int(rng.integers(3))]
        d = int(rng.integers(1, 4))
        kinds = [KINDS[int(rng.integers(6))] for _ in range(n)]
        k = 2
        shs = {"wrap-cls": [(d,)], "diagonal": [(d,)] * 2, "mvn": [(d,), (d * (d + 1) // 2,)], "mixture": [(k, d), (k, d), (k,)], "full mixture": [(k, d), (k, d, d), (k,)],
               "given_variances": [(d,)] * 2, "given_cov": [(d,), (d, d)]}[name]
        base = dict(ep=f"k{i}", key=f"{name} of {kinds} {d} as {c}")
        def go():
            vals, want, args = [], [], []
            for j, (kind, sh) in enumerate(zip(kinds, shs)):
                num, fsh, fv = 3 + j, sh, np.full(sh, 3.0 + j)
                v = given(kind, sh, num)
                if (name, j) in (("full mixture", 1), ("given_cov", 1)):
                    A = np.broadcast_to(np.diag(np.full(d, 4.0)), sh)
                    fsh, fv = (*sh[:-2], d * (d + 1) // 2), np.broadcast_to(np.linalg.cholesky(A)[..., *np.tril_indices(d)], (*sh[:-2], d * (d + 1) // 2))
                    v = v if kind in ("shape", "listshape") else {"array": jnp.asarray, "nparray": np.asarray}.get(kind, CLS.get(kind))(jnp.asarray(A) if kind != "nparray" else A)
                elif (name, j) in (("mixture", 1), ("given_variances", 1)):
                    fv = np.sqrt(fv)
                vals.append(v)
                args.append([kind, list(fsh), num])
                want.append(fv)
            m = mk(r, CLS[c], *vals, (d,))
            got = variables(m, args, want)
            if name in ("full mixture", "given_cov") and kinds[1] != "shape":
                got = [g if not (g[2] == 0 and g[1] == args[1][1]) else g for g in got]
            return dict(ev="Wrap", default=c, args=args, got=got, same=True)
        guard(out, "wrapping", base, go)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCFreeze", "MCFreeze.cfg" if ctx.quick else "MCFreezeDeep.cfg", timeout=900)
    N, A = (200, 308) if ctx.quick else (4000, 4004)
    cases = ctx.generate("MCFreeze", cfg="MCFreezeSim.cfg", extra=("-simulate", f"num={2 * N}", "-depth", "24", "-seed", str(ctx.seed + 3)))
    cases = cases[::max(1, len(cases) // N)][:N]
    s = ctx.seed * 1000
    m = 8
    ex = [(i, c, s) for i, c in enumerate(cases)]
    wr = [(i, s) for i in range(A)]
    ctx.validate("FreezeTrace", ctx.pmap("checks.c21", "job", [("programs", ex[j::m]) for j in range(m)] + [("wraps", wr[j::m]) for j in range(m)]), cfg="Trace.cfg")
