"""C05: parameter representations against spec/Recon.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx import ModuleReconstructor
from bijx.utils import Const
from harness.core import NANV, err, ints, q, shape
from harness.zoo import TinyNet, coupling_layer

f = lambda v: jnp.asarray(v, dtype=float)


class Nested(nnx.Module):
    def __init__(self):
        self.z = nnx.Param(f(np.zeros((2, 2))))
        self.items = nnx.List([nnx.Param(f(np.zeros(3))), Const(f(np.zeros(2))), nnx.Param(f(0.0))])
        self.sub = nnx.Dict({"q": nnx.Param(f(np.zeros((1, 3)))), "b": nnx.BatchStat(f(np.zeros(2)))})
        self.a = Const(f(np.zeros(1)))


class Complexed(nnx.Module):
    def __init__(self):
        self.u = nnx.Param(jnp.zeros(2, dtype=complex))
        self.v = nnx.Param(f(np.zeros(3)))


class Single(nnx.Module):
    def __init__(self):
        self.w = nnx.Param(jnp.zeros((2, 3), dtype=jnp.float32))
        self.k = nnx.Param(jnp.zeros((), dtype=jnp.float32))


class Many(nnx.Module):
    """more than ten list entries: path order is numeric, not alphabetical"""

    def __init__(self):
        self.ps = nnx.List([nnx.Param(f(np.zeros(1 + i % 3))) for i in range(12)])


KINDS = {
    "affine2": (lambda: bijx.AffineLinear(scale=f([0, 0]), shift=f([0, 0]), transform_scale=None), nnx.Param),
    "affine0": (lambda: bijx.AffineLinear(scale=f(0), shift=f(0), transform_scale=None), nnx.Param),
    "affine22": (lambda: bijx.AffineLinear(scale=f(np.zeros((2, 2))), shift=f(np.zeros((2, 2))), transform_scale=None), nnx.Param),
    "affineconst": (lambda: bijx.AffineLinear(scale=Const(f([0, 0])), shift=f([0, 0]), transform_scale=None), nnx.Param),
    "chain": (lambda: bijx.Chain(bijx.Scaling(scale=Const(f(0))), bijx.Shift(shift=f([0, 0, 0])), bijx.SinhConjugation(
        loc=f(0), alpha=f([0, 0, 0]), beta=f(0), mu=f(0), nu=f(0))), nnx.Param),
    "spline": (lambda: bijx.MonotoneRQSpline(4, (2,), rngs=nnx.Rngs(0)), nnx.Param),
    "nested": (Nested, nnx.Param),
    "nested-const": (Nested, Const),
    "nested-any": (Nested, nnx.Any(nnx.Param, nnx.BatchStat)),
    "complex": (Complexed, nnx.Param),
    "single": (Single, nnx.Param),
    "many": (Many, nnx.Param),
    "coupling": (lambda: coupling_layer(bijx.checker_mask((4,), True), "affine", True, 3), nnx.Param),
    "none": (lambda: bijx.Tanh(), nnx.Param),
    "none-const": (lambda: bijx.Scaling(scale=Const(f([0, 0]))), nnx.Param),
    "net": (lambda: TinyNet(2, (3,), 1), nnx.Param),
}


def path_leaves(state):
    """(path, variable) in path order; integer keys compare as integers"""
    items = list(state.flat_state()) if hasattr(state, "flat_state") else list(nnx.to_flat_state(state))
    out = []
    for it in items:
        p, v = it
        out.append((tuple(p), v))
    return sorted(out, key=lambda it: [(isinstance(k, str), k) for k in it[0]])


def val(v):
    return v.get_value() if hasattr(v, "get_value") else v


def numbered(module):
    """fill all leaves with small distinct integers (complex: real part)"""
    g, s = nnx.split(module)
    lv = path_leaves(s)
    c = [0]

    def fill(p, v):
        a = np.asarray(val(v))
        if not np.issubdtype(a.dtype, np.floating) and not np.issubdtype(a.dtype, np.complexfloating):
            return
        c[0] += 1
        v.set_value(jnp.asarray(100 * c[0] + 1 + np.arange(a.size).reshape(a.shape), dtype=a.dtype))
    for p, v in lv:
        fill(p, v)
    return nnx.merge(g, s)


def dump(mod_or_state, filt):
    st = mod_or_state if isinstance(mod_or_state, nnx.State) else nnx.split(mod_or_state)[1]
    par = {tuple(p) for p, _ in path_leaves(nnx.split_state(st, filt, ...)[0])}
    tree, vals = [], []
    for p, v in path_leaves(st):
        a = np.asarray(val(v)) if not jax.dtypes.issubdtype(val(v).dtype, jax.dtypes.prng_key) else np.zeros(0)
        tree.append(dict(path=".".join(map(str, p)), shape=shape(a), dtype=str(a.dtype), par=p in par, cplx=bool(np.iscomplexobj(a))))
        vals.append(ints(a.real) if not np.any(np.iscomplexobj(a) and a.imag) else [NANV])
    return tree, vals


def lay_of(rep, x):
    if rep == "A":
        return ints(x)
    if rep == "L":
        return [ints(np.real(a)) for a in x]
    st = nnx.State(x) if isinstance(x, dict) else x
    return [dict(path=".".join(map(str, p)), vals=ints(np.real(val(v)))) for p, v in path_leaves(st)]


def shape_tree(d, of, pre=()):
    """nested dictionary -> [path, shape] in path order"""
    out = []
    for k in d:
        out += shape_tree(d[k], of, pre + (k,)) if isinstance(d[k], dict) else [(pre + (k,), [int(v) for v in of(d[k])])]
    return out if pre else [dict(path=".".join(map(str, p)), shape=v) for p, v in sorted(out, key=lambda it: [(isinstance(k, str), k) for k in it[0]])]


def make_rep(rep, module, filt, add, cplx):
    """the parameters of a module in a representation, bumped by add(k)"""
    st = nnx.split(module)[1] if not isinstance(module, nnx.State) else module
    ps = nnx.split_state(st, filt, ...)[0]
    off = [0]
    new = []
    for p, v in path_leaves(ps):
        a = np.asarray(val(v))
        k = off[0] + 1 + np.arange(a.size).reshape(a.shape)
        off[0] += a.size
        new.append((p, jnp.asarray(a + add * k, dtype=a.dtype)))
    if rep == "A":
        return jnp.concatenate([a.ravel() for _, a in new]) if new else jnp.zeros(0)
    if rep == "L":
        return [a for _, a in new]
    pure = {}
    for p, a in new:
        d = pure
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = a
    if rep == "D":
        return pure
    import copy
    ps2 = jax.tree.map(lambda x: x, ps)
    nnx.replace_by_pure_dict(ps2, copy.deepcopy(pure))
    return ps2


def stack_reps(rep, reps, bshape):
    st = jax.tree.map(lambda *a: jnp.stack(a).reshape(tuple(bshape) + jnp.shape(a[0])), *reps)
    return st


def run_kind(name, words, as_state, seed):
    mk, filt = KINDS[name]
    out = []
    ep0 = f"{name}/{'state' if as_state else 'module'}"
    try:
        mod = numbered(mk())
        tmpl = nnx.split(mod)[1] if as_state else mod
        rec = ModuleReconstructor(tmpl, filt) if filt is not nnx.Param else ModuleReconstructor(tmpl)
        tree, vals = dump(tmpl, filt)
        cplx = bool(rec.has_complex_params)
        head = dict(tree=tree, vals=vals, shapes=[list(map(int, s)) for s in rec.params_shapes], dtypes=[str(d) for d in rec.params_dtypes],
                    paths=[".".join(map(str, p)) for p, _ in path_leaves(rec.params)],
                    dshapes=shape_tree(rec.params_dict, lambda a: a.shape), sshapes=shape_tree(rec.params_shape_dict, lambda a: a),
                    complex=cplx, sizes=[] if cplx else [int(v) for v in rec.params_sizes],
                    total=0 if cplx else int(rec.params_total_size), splits=[] if cplx else [int(v) for v in rec.params_array_splits])
        # the dictionary of shapes has the same structure
        for w in words:
            ep = ep0 + "/" + "".join(w)
            key = ep
            if cplx and "A" in w:
                w = [r if r != "A" else "L" for r in w]
            out.append(dict(ev="Tree", ep=ep, key=key, **head))
            m = tmpl
            for r in w:
                x = make_rep(r, m, filt, 1, cplx)
                lay = lay_of(r, x)
                m = rec.from_params(x)
                m2 = rec.from_state(x) if r == "S" else rec.from_params(np.asarray(x) if r == "A" else x)
                gt, gv = dump(m, filt)
                again = dump(m2, filt)[1] == gv and lay_of(r, x) == lay
                out.append(dict(ev="Via", ep=ep, key=key, rep=r, lay=lay, got=gv, gtree=gt, kept=dump(tmpl, filt)[1], again=bool(again)))
            # batches of the current content
            r = w[-1]
            for b in [(3,), (2, 2), (1,)] if any(t["par"] for t in tree) else []:
                n = int(np.prod(b))
                reps = [make_rep(r, m, filt, i, cplx) for i in range(n)]
                # n-th slice: bumped i times means added i * k
                mb = rec.from_params(stack_reps(r, reps, b))
                gt, _ = dump(mb, filt)
                st = mb if isinstance(mb, nnx.State) else nnx.split(mb)[1]
                pl = path_leaves(st)
                sl = []
                for i in range(n):
                    idx = np.unravel_index(i, b)
                    row = []
                    for t, (p, v) in zip(tree, pl):
                        a = np.asarray(val(v))
                        row.append(ints(np.real(a[idx] if t["par"] else a)))
                    sl.append(row)
                out.append(dict(ev="Batch", ep=ep, key=key + f" batch={b}", b=list(b), gshapes=[t["shape"] for t in gt], slices=sl))
    except Exception as ex:  # noqa: BLE001
        out.append(err(name, ex, ep=ep0 + "/err", key=ep0))
    return out


def auto_affine(seed, n_cases):
    """vectorised calls: exact"""
    out = []
    rng = np.random.default_rng(seed)
    pairs = [((), ()), ((3,), (3,)), ((3,), ()), ((), (2,)), ((2, 1), (3,)), ((3,), (2, 1)), ((2, 3), (3,)), ((1,), (4,)), ((2, 2), (2, 2))]
    for i in range(n_cases):
        ev = [(), (2,), (2, 2)][i % 3]
        pb, xb = pairs[(i * 5 + i // 3) % len(pairs)]
        rep = "ALDS"[(i // 2) % 4]
        n = int(np.prod(ev, dtype=int))
        npb, nxb = int(np.prod(pb, dtype=int)), int(np.prod(xb, dtype=int))
        key = f"auto event={ev} params={pb} x={xb} rep={rep}"
        s = rng.choice([1, -1, 2, -2], size=(npb, n))
        t = rng.integers(-9, 10, size=(npb, n))
        x = rng.integers(-9, 10, size=(nxb, n))
        ld = rng.integers(-5, 6, size=nxb)
        try:
            rec = ModuleReconstructor(bijx.AffineLinear(scale=f(np.zeros(ev)), shift=f(np.zeros(ev)), transform_scale=None))
            S, T = f(s).reshape(pb + ev), f(t).reshape(pb + ev)
            if rep == "A":
                P = jnp.concatenate([S.reshape(pb + (n,)), T.reshape(pb + (n,))], -1)
            elif rep == "L":
                P = [S, T]
            elif rep == "D":
                P = {"scale": {"param": S}, "shift": {"param": T}}
            else:
                P = rec.params
                nnx.replace_by_pure_dict(P, {"scale": {"param": S}, "shift": {"param": T}})
            auto = rec.from_params(P, autovmap=True)
            r = len(ev)
            X, LD = f(x).reshape(xb + ev), f(ld).reshape(xb) * math.log(2)
            y, l2 = auto.forward(X, LD, input_ranks=(r, 0))
            x3, l3 = auto.reverse(y, l2, input_ranks=(r, 0))
            nb = int(np.prod(np.broadcast_shapes(pb, xb), dtype=int))
            lg = lambda v: ints(np.asarray(v) / math.log(2))
            out.append(dict(ev="Auto", key=key, pb=list(pb), xb=list(xb), n=n, ev0=list(ev), s=s.tolist(), t=t.tolist(), x=x.tolist(), ld=ld.tolist(),
                            y=[ints(v) for v in np.asarray(y).reshape(nb, n)], ldo=lg(l2), yshape=shape(y), ldshape=shape(l2),
                            back=[ints(v) for v in np.asarray(x3).reshape(nb, n)], ldback=lg(l3)))
        except Exception as ex:  # noqa: BLE001
            out.append(err("autovmap", ex, key=key))
    return out


class KwScale(bijx.Bijection):
    """a template whose methods take keyword arguments"""

    def __init__(self):
        self.a, self.b = nnx.Param(f(0.)), nnx.Param(f([0., 0.]))

    def forward(self, x, log_density, *, gain=1.0, offset=0.0):
        return x * jnp.exp(self.a * gain) + self.b + offset, log_density - x.shape[-1] * self.a * gain

    def reverse(self, x, log_density, *, gain=1.0, offset=0.0):
        return (x - self.b - offset) * jnp.exp(-self.a * gain), log_density + x.shape[-1] * self.a * gain


KW = {"keyword": dict(gain=0.5, offset=-0.25), "coupling": {}}


def auto_real(seed):
    """vectorised calls of other templates against their slices"""
    out = []
    rng = np.random.default_rng(seed)
    for name, mk, ev in [("spline", lambda: bijx.MonotoneRQSpline(3, (), rngs=nnx.Rngs(0)), ()),
                         ("sinh", lambda: bijx.SinhConjugation(loc=f(0), alpha=f(0), beta=f(0), mu=f(0), nu=f(0)), ()),
                         ("chain", lambda: bijx.Chain(bijx.AffineLinear(scale=f([0, 0]), shift=f(0)), bijx.Tanh()), (2,)),
                         ("radial", lambda: bijx.Radial(bijx.RayTransform(bijx.AffineLinear(scale=f(0.), shift=f(0.))), center=f([0, 0]), scale=f([0, 0])), (2,)),
                         ("tanh", lambda: bijx.Tanh(), (2,)),
                         ("keyword", lambda: KwScale(), (2,)),
                         ("coupling", lambda: coupling_layer(bijx.checker_mask((4,), True), "affine", True, 3), (4,))]:
        key = f"slices {name}"
        try:
            rec = ModuleReconstructor(mk())
            b = (3,)
            P = jnp.asarray(rng.normal(size=b + (rec.params_total_size,)) * .4)
            X = jnp.asarray(rng.uniform(.1, .9, size=b + ev))
            LD = jnp.asarray(rng.normal(size=b))
            auto = rec.from_params(P, autovmap=True)
            for fn, kw, how in [("forward", KW.get(name, {}), "attr"), ("reverse", KW.get(name, {}), "attr"), ("forward", {}, "call"), ("reverse", KW.get(name, {}), "kwpos"), ("__call__", KW.get(name, {}), "attr")]:
                if how == "call":
                    y, l1 = auto(fn, X, LD, input_ranks=(len(ev), 0), **kw)
                elif how == "kwpos":
                    y, l1 = getattr(auto, fn)(X, LD, **kw, input_ranks=[len(ev)] + [0])
                elif fn == "__call__":
                    y, l1 = auto("__call__", X, LD, input_ranks=(len(ev), 0), **kw)
                else:
                    y, l1 = getattr(auto, fn)(X, LD, input_ranks=(len(ev), 0), **kw)
                ref = [getattr(rec.from_params(P[i]), fn)(X[i], LD[i], **kw) for i in range(3)]
                out.append(dict(ev="Same", key=key + f" {fn} {how}", a=q(y) + q(l1), b=q(jnp.stack([r[0] for r in ref])) + q(jnp.stack([r[1] for r in ref])),
                                ashape=shape(y) + shape(l1), bshape=list(b + ev) + list(b), tol=16))
        except Exception as ex:  # noqa: BLE001
            out.append(err("autovmap", ex, key=key))
    return out


def spline_counts():
    """the documented number of parameters of a spline, and attributes read through a vectorised handle"""
    out = []
    for knots in (2, 3, 5):
        for ev in [(), (2,), (2, 3)]:
            key = f"spline counts {knots} {ev}"
            try:
                sp = bijx.MonotoneRQSpline(knots, ev, rngs=nnx.Rngs(0))
                rec = ModuleReconstructor(sp)
                auto = rec.from_params(jnp.zeros((4, rec.params_total_size)), autovmap=True)
                out.append(dict(ev="Counts", key=key, knots=knots, n=int(np.prod(ev, dtype=int)), total=int(rec.params_total_size),
                                count=int(sp.param_count), splits=[int(v) for v in sp.param_splits],
                                seen=[int(auto.knots), int(auto.param_count)]))
            except Exception as ex:  # noqa: BLE001
                out.append(err("spline", ex, key=key))
    return out


def observe(job):
    kind, a = job
    if kind == "kind":
        return run_kind(*a)
    if kind == "auto":
        return auto_affine(*a)
    if kind == "counts":
        return spline_counts()
    return auto_real(a)


def run(ctx):
    cases = ctx.generate("MCRecon")
    words = [c["word"] for c in cases]
    rng = ctx.nprng("c05")
    jobs = []
    for name in KINDS:
        for as_state in (False, True):
            n = 6 if ctx.quick else 60
            jobs.append(("kind", (name, [words[i] for i in rng.choice(len(words), n, replace=False)], as_state, ctx.seed)))
    jobs += [("auto", (ctx.seed + 17 * i, 12 if ctx.quick else 60)) for i in range(6)] + [("real", ctx.seed + i) for i in range(2)] + [("counts", 0)]
    ctx.validate("ReconTrace", ctx.pmap("checks.c05", "observe", jobs), cfg="Trace.cfg")
