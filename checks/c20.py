"""C20: batches, execution modes and copies of modules against spec/Exec.tla."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx import cg
from bijx.bijections.continuous import AutoJacVF, ContFlowCG, ContFlowDiffrax, ContFlowRK4
from bijx.bijections.conv_cnf import ConvVF
from bijx.nn.nets import MLP, ResNet
from bijx.solvers import DiffraxConfig
from checks.c16 import SmoothVF
from checks.c18 import guard
from harness import zoo
from harness.core import q
from harness.zoo import Entry, arr, real


def flow_entries(seed):
    E = []
    r = lambda *s: zoo.seeded(seed, "c20", *s)
    def add(name, mk, ev, **kw):
        E.append(Entry(name, mk, ev, real(ev, .8), group=name.split("-")[0], tol=64, **kw))
    for n in (1, 3):
        vf = lambda n=n: AutoJacVF(SmoothVF(r("vf", n).normal(size=(n, n)) * .5), event_dim=1)
        add(f"ContFlowRK4-{n}", lambda vf=vf: ContFlowRK4(vf(), t_start=0., t_end=1., steps=8), (n,))
        add(f"ContFlowCG-{n}", lambda vf=vf: ContFlowCG(vf(), cg.Euclidean(), t_start=0., t_end=.7, steps=8, tableau=cg.CG2), (n,))
        add(f"ContFlowDiffrax-{n}", lambda vf=vf: ContFlowDiffrax(vf(), DiffraxConfig(t_start=0., t_end=.5, dt=.1)), (n,))
    add("ConvFlow-3x3", lambda: ContFlowRK4(conv_vf(), t_start=0., t_end=.4, steps=4), (3, 3))
    def net(kind, i, n_in, n_out):
        g = nnx.Rngs(i)
        if kind == "mlp":
            return MLP(n_in, n_out, [5], rngs=g)
        return ResNet(n_in, n_out, 6, 2, rngs=g)
    def nn_coupling(kind, i):
        mask = bijx.checker_mask((4,), i % 2 == 0)
        rec = bijx.ModuleReconstructor(bijx.AffineLinear(scale=arr(np.zeros(2)), shift=arr(np.zeros(2))))
        return bijx.GeneralCouplingLayer(net(kind, i, 2, rec.params_total_size), mask, rec, bijection_event_rank=1, split=True)
    for kind in ("mlp", "res"):
        add(f"NetCoupling-{kind}", lambda kind=kind: bijx.Chain(nn_coupling(kind, 0), nn_coupling(kind, 1)), (4,))
    return E


def conv_vf():
    return ConvVF.build((3, 3), rngs=nnx.Rngs(5))


def distributions(seed):
    """name -> (make, event): densities forward, draws reverse."""
    r = lambda *s: zoo.seeded(seed, "c20d", *s)
    N = lambda *sh: arr(r("p", sh).normal(size=sh))
    comp = lambda: nnx.vmap(lambda s, v: bijx.Transformed(bijx.IndependentNormal((2,)), bijx.Chain(bijx.Scaling(s), bijx.Shift(v))))(N(3, 2) * .1 + 1, N(3, 2))
    D = {
        "Normal()": (lambda: bijx.IndependentNormal(()), ()), "Normal(2,3)": (lambda: bijx.IndependentNormal((2, 3), rngs=nnx.Rngs(0)), (2, 3)),
        "Uniform()": (lambda: bijx.IndependentUniform(()), ()), "Uniform(3)": (lambda: bijx.IndependentUniform((3,)), (3,)),
        "Diagonal": (lambda: bijx.DiagonalNormal(N(3), N(3), rngs=nnx.Rngs(0)), (3,)), "Diagonal-init": (lambda: bijx.DiagonalNormal((2,), (2,), rngs=nnx.Rngs(3)), (2,)),
        "MVN": (lambda: bijx.MultivariateNormal(N(3), N(6)), (3,)), "MVN-cov": (lambda: bijx.MultivariateNormal.given_cov(N(2), arr([[2., .3], [.3, 1.]])), (2,)),
        "Mixture-full": (lambda: bijx.GaussianMixture(N(3, 2), arr(np.eye(2)[None] * np.array([1., 2, .5])[:, None, None]), N(3)), (2,)),
        "Mixture-diag": (lambda: bijx.GaussianMixture(N(4, 2), arr(np.abs(r("v").normal(size=(4, 2))) + .3), N(4)), (2,)),
        "Stack": (lambda: bijx.MixtureStack(comp(), N(3)), (2,)),
        "Transformed": (lambda: bijx.Transformed(bijx.IndependentNormal((3,)), bijx.Chain(bijx.AffineLinear(N(3), N(3)), bijx.Tanh(), bijx.Sinh())), (3,)),
        "Transformed()": (lambda: bijx.Transformed(bijx.IndependentNormal(()), bijx.SinhConjugation(rngs=nnx.Rngs(0))), ()),
        "Flow": (lambda: bijx.Transformed(bijx.DiagonalNormal(N(4), N(4)), bijx.Chain(*[zoo.coupling_layer(bijx.checker_mask((4,), i == 0), "affine", i == 0, i) for i in range(2)])), (4,)),
        "Free": (lambda: bijx.Transformed(bijx.IndependentNormal((3, 4)), bijx.FreeTheoryScaling(.5, (3, 4))), (3, 4)),
        "Twice": (lambda: bijx.Transformed(bijx.Transformed(bijx.IndependentNormal((2,)), bijx.Radial(bijx.Sinh(), center=N(2) * .1, scale=N(2) * .1)), bijx.Inverse(bijx.AffineLinear(N(2), N(2)))), (2,)),
        "Logit": (lambda: bijx.Transformed(bijx.IndependentUniform((3,)), bijx.Inverse(bijx.Sigmoid())), (3,)),
        "ContFlow": (lambda: bijx.Transformed(bijx.IndependentNormal((2,)), ContFlowRK4(AutoJacVF(SmoothVF(r("cf").normal(size=(2, 2)) * .5), event_dim=1), t_start=0., t_end=1., steps=6)), (2,)),
    }
    return D


def bits(m):
    value = lambda v: np.asarray(v.get_value() if hasattr(v, "get_value") else v).tobytes()
    return [(p, type(v).__name__ if isinstance(v, nnx.Variable) else "", value(v)) for p, v in nnx.to_flat_state(nnx.state(m)) if not isinstance(v, nnx.RngState)]


def handed(m, h):
    if h == "merge":
        return nnx.merge(*nnx.split(m))
    if h == "clone":
        return nnx.clone(m)
    if h == "deepcopy":
        return copy.deepcopy(m)
    if h == "jitted":
        return nnx.jit(lambda m: m)(m)
    if h == "split3":
        return nnx.merge(*nnx.split(m, nnx.Param, bijx.Const, ...))
    graph, state = nnx.split(m)
    if h == "puredict":
        pure = jax.tree.map(lambda a: a, nnx.to_pure_dict(state))
        nnx.replace_by_pure_dict(state, pure)
        return nnx.merge(graph, state)
    leaves, tree = jax.tree.flatten(state)
    if h == "bytes":
        def again(a):
            if not hasattr(a, "dtype") or jnp.issubdtype(a.dtype, jax.dtypes.prng_key):
                return a
            a = np.asarray(a)
            return jnp.asarray(np.frombuffer(a.tobytes(), a.dtype).reshape(a.shape))
        leaves = [again(a) for a in leaves]
    return nnx.merge(graph, jax.tree.unflatten(tree, leaves))


def shifted(m, d):
    """Moves all trainable parameters of the module itself."""
    st = nnx.state(m, nnx.Param)
    nnx.update(m, jax.tree.map(lambda a: a + d if jnp.issubdtype(jnp.result_type(a), jnp.floating) else a, st))
    return m


# transformations of JAX that nnx cannot look through
OPAQUE = ("closed", "remat", "grad", "inside")


def peeled(call, m, x, ld, ps, wrap):
    """Evaluates with the axes peeled off; axes counted from zero here."""
    if not ps:
        return call(m, x, ld)
    a, o, how = ps[0]["a"] - 1, ps[0]["o"] - 1, ps[0]["how"]
    rest = ps[1:]
    if how == "nnxvmap" and wrap not in OPAQUE:
        return nnx.vmap(lambda m, x, ld: peeled(call, m, x, ld, rest, wrap), in_axes=(None, a, a), out_axes=o)(m, x, ld)
    inner = lambda x, ld: peeled(call, m, x, ld, rest, wrap)
    wrap = wrap if how == "loop" else "inside"
    if how in ("vmap", "nnxvmap"):
        return jax.vmap(inner, in_axes=a, out_axes=o)(x, ld)
    x, ld = jnp.moveaxis(x, a, 0) if x.ndim else x, jnp.moveaxis(ld, a, 0)
    if how == "map":
        out = jax.lax.map(lambda xl: inner(*xl), (x, ld))
    else:
        rs = [inner(x[i], ld[i]) for i in range(ld.shape[0])]
        out = tuple(jnp.stack(t) for t in zip(*rs))
    return tuple(jnp.moveaxis(t, 0, o) for t in out)


def opaque(m):
    """Modules with functions among their leaves (solvers of diffrax) cannot be arguments of jax.jit."""
    return any(callable(v) and not isinstance(v, jax.Array) for v in jax.tree.leaves(m))


def evaluated(call, m, x, ld, ps, wrap):
    go = lambda m, x, ld: peeled(call, m, x, ld, ps, wrap)
    if wrap == "jit" and not opaque(m):
        return jax.jit(go)(m, x, ld)
    if wrap == "nnxjit":
        return nnx.jit(go)(m, x, ld)
    if wrap in ("state", "jit"):
        graph, state = nnx.split(m)
        return jax.jit(lambda s, x, ld: go(nnx.merge(graph, s), x, ld))(state, x, ld)
    if wrap == "closed":
        return jax.jit(lambda x, ld: go(m, x, ld))(x, ld)
    if wrap == "remat":
        return jax.checkpoint(lambda x, ld: go(m, x, ld))(x, ld)
    if wrap == "chunk" and not ps and ld.ndim and ld.shape[0] > 1:
        k = ld.shape[0] // 2
        parts = [go(m, x[:k], ld[:k]), go(m, x[k:], ld[k:])]
        return tuple(jnp.concatenate(t) for t in zip(*parts))
    if wrap == "grad":
        def f(ld, x):
            y, l = go(m, x, ld)
            return jnp.sum(jnp.real(y)) + jnp.sum(l), (y, l)
        return jax.value_and_grad(f, has_aux=True)(ld, x)[0][1]
    return go(m, x, ld)


def run_word(out, i, name, make, event, dom, word, kw, tol, dist, rng):
    base = dict(ep=f"m{i}", key=name)
    out.append(dict(base, ev="New"))
    m = make()
    orig, apart = m, False
    n = int(np.prod(word[0]["s"], dtype=int))
    X = dom(rng, n).reshape(n, *event)
    L = rng.normal(size=n)
    keys = jax.random.split(jax.random.key(int(rng.integers(2 ** 31))), n)
    pts = {"forward": jnp.asarray(X)}
    if dist:
        pts["reverse"] = keys
    else:
        pts["reverse"] = jnp.stack([m.forward(jnp.asarray(X[j]), jnp.asarray(0.), **kw)[0] for j in range(n)])
    def call(dir):
        def one(m, x, ld):
            if not dist:
                return getattr(m, dir)(x, ld, **kw)
            if dir == "forward":
                return x, ld + m.log_density(x, **kw)
            f = lambda k, l: (lambda y, p: (y, p + l))(*m.sample((), rng=k, **kw))
            for _ in range(x.ndim):
                f = jax.vmap(f)
            return f(x, ld)
        return one
    evs = {d: tuple(np.shape(call(d)(m, pts[d][0], jnp.asarray(0.))[0])) for d in ("forward", "reverse")} if n else {}
    idx = np.arange(n).reshape(word[0]["s"])
    ver, known = 0, set()
    flat = lambda y, k: [q(row) for row in np.asarray(y).reshape(k, -1)] if np.asarray(y).size else [[] for _ in range(k)]
    for t in word:
        k, a, b = t["t"], t.get("a", 0) - 1, t.get("b", 0)
        if k == "begin":
            out.append(dict(base, ev="Begin", s=t["s"]))
        elif k == "hand":
            before = bits(m)
            apart = t["h"] not in ("jitted", "merge", "split3") or apart  # nnx.merge shares its variables
            # equinox modules inside diffrax solvers cannot be deep-copied
            m = handed(m, "clone" if t["h"] == "deepcopy" and "Diffrax" in name else t["h"])
            out.append(dict(base, ev="Hand", h=t["h"], kept=bits(m) == before))
        elif k == "update":
            before = bits(orig)
            m = shifted(m, .02 * (t["v"] - ver))
            ver = t["v"]
            out.append(dict(base, ev="Update", v=ver, apart=m is orig or not apart or bits(orig) == before))
        elif k == "eval":
            d = t["dir"]
            if (d, ver) not in known:
                known.add((d, ver))
                r = shifted(make(), .02 * ver)
                res = [call(d)(r, pts[d][j], jnp.asarray(L[j])) for j in range(n)]
                out.append(dict(base, ev="Ref", dir=d, ver=ver, y=[q(np.ravel(y)) for y, _ in res], ld=[q(l)[0] for _, l in res]))
            def go():
                before = bits(m)
                y, ld = evaluated(call(d), m, pts[d][idx], jnp.asarray(L)[idx], t["peel"], t["wrap"])
                ev, nb = evs[d], y.ndim - len(evs[d])
                return dict(ev="Eval", dir=d, peel=t["peel"], wrap=t["wrap"], shape=list(y.shape[:max(nb, 0)]), lshape=list(ld.shape), event=tuple(y.shape[max(nb, 0):]) == ev,
                            y=flat(y, max(1, int(np.prod(y.shape[:max(nb, 0)], dtype=int)))), ld=q(ld), kept=bits(m) == before, tol=tol)
            guard(out, f"{d} {t['wrap']} {[p['how'] for p in t['peel']]} on {idx.shape}", base, go)
        else:
            out.append(dict(base, ev="Lay", t=k, a=t["a"], b=b))
            if k == "swap":
                idx = np.swapaxes(idx, a, b - 1)
            elif k == "take":
                idx = np.take(idx, b, axis=a)
            elif k == "part":
                idx = np.take(idx, range(b, idx.shape[a]), axis=a)
            elif k == "twice":
                idx = np.concatenate([idx, idx], axis=a)
            elif k == "flip":
                idx = np.flip(idx, axis=a)
            elif k == "move":
                idx = np.moveaxis(idx, a, b - 1)
            elif k == "insert":
                idx = np.expand_dims(idx, a)
            elif k == "drop":
                idx = np.squeeze(idx, axis=a)
            elif k == "merge":
                idx = idx.reshape(*idx.shape[:a], -1, *idx.shape[a + 2:])
            elif k == "cut":
                idx = idx.reshape(*idx.shape[:a], b, idx.shape[a] // b, *idx.shape[a + 1:])
            idx = np.asarray(idx)


def words(jobs):
    out = []
    cat = dists = None
    for i, name, word, seed in jobs:
        if cat is None:
            cat = {e.name: e for e in zoo.catalogue(seed) + flow_entries(seed)}
            dists = distributions(seed)
        rng = zoo.seeded(seed, "c20", i)
        try:
            if name in cat:
                e = cat[name]
                run_word(out, i, name, e.make, e.event, e.dom, word, e.kw, 16, False, rng)
            else:
                mk, ev = dists[name]
                dom = zoo.unit_iv(ev) if name.startswith("Uniform") else zoo.real(ev, 1.0)
                run_word(out, i, name, mk, ev, dom, word, {}, 16, True, rng)
        except Exception as ex:
            def again(ex=ex):
                raise ex
            guard(out, "word", dict(ep=f"m{i}", key=name), again)
    return out


def job(a):
    return globals()[a[0]](a[1])


def chosen(seed, quick, rng):
    """All kinds of modules; in the quick tier some configurations of each."""
    E = [e for e in zoo.catalogue(seed) + flow_entries(seed) if e.group != "ToFourierData"]
    D = list(distributions(seed))
    if not quick:
        return [e.name for e in E] + D
    by = {}
    for e in E:
        by.setdefault(e.group, []).append(e.name)
    few = dict(Coupling=12, meta=12, compound=17, FreeTheoryScaling=5, SpectrumScaling=5, Radial=6)
    names = []
    for g, ns in by.items():
        k = min(len(ns), few.get(g, 2))
        names += [ns[j] for j in sorted(rng.choice(len(ns), k, replace=False))]
    return names + D


def run(ctx):
    ctx.model("MCExec", "MCExec.cfg" if ctx.quick else "MCExecDeep.cfg", timeout=900)
    rng = ctx.nprng("c20")
    names = chosen(ctx.seed, ctx.quick, rng)
    if not ctx.quick:
        names = names * 3
    cases = ctx.generate("MCExec", cfg="MCExecSim.cfg", extra=("-simulate", f"num={3 * len(names)}", "-depth", "18", "-seed", str(ctx.seed + 5)))
    assert len(cases) >= len(names), (len(cases), len(names))
    jobs = [(i, nm, cases[i]["word"], ctx.seed) for i, nm in enumerate(names)]
    m = 16 if ctx.quick else 64
    ctx.validate("ExecTrace", ctx.pmap("checks.c20", "job", [("words", jobs[j::m]) for j in range(m)]), cfg="Trace.cfg")
