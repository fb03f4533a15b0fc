"""A catalogue of the library's bijections with varied parameters.

entry(name, make, event, dom, ...): `make()` builds the bijection, `dom(rng, n)`
draws n domain points of shape (n, *event).  `endo` marks maps whose range lies
inside their domain, so that they can be iterated."""
from __future__ import annotations

import dataclasses
import typing as tp

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx


@dataclasses.dataclass
class Entry:
    name: str
    make: tp.Callable
    event: tuple
    dom: tp.Callable
    endo: bool = False          # forward of the domain stays in the domain
    out_event: tuple | None = None
    unit: int = 1 << 20
    tol: int = 8
    kw: dict = dataclasses.field(default_factory=dict)
    flat_out: tp.Callable | None = None   # non-array outputs -> array
    jac: bool = True
    group: str = ""


def real(event, s=2.0):
    return lambda rng, n: rng.normal(size=(n, *event)) * s


def unit_iv(event, lo=0.02, hi=0.98):
    return lambda rng, n: rng.uniform(lo, hi, size=(n, *event))


def pos(event, lo=0.1, hi=3.0):
    return lambda rng, n: rng.uniform(lo, hi, size=(n, *event))


def arr(x):
    return jnp.asarray(x, dtype=float)


def pshape(kind, event):
    """Parameter shapes that broadcast against an event."""
    if kind == "scalar" or not event:
        return ()
    if kind == "full":
        return tuple(event)
    return tuple(event[-1:])  # trailing


class TinyNet(nnx.Module):
    """A fixed smooth conditioning network (..., n_in) -> (..., *out)."""

    def __init__(self, n_in, out, seed, scale=0.5, const=0.0):
        r = np.random.default_rng(seed)
        self.w = nnx.Param(arr(r.normal(size=(n_in, int(np.prod(out, dtype=int)))) * scale))
        self.b = nnx.Param(arr(r.normal(size=(int(np.prod(out, dtype=int)),)) * scale))
        self.out = tuple(out)
        self.const = const

    def __call__(self, x):
        h = jnp.tanh(x) @ self.w.get_value() + self.b.get_value() + self.const
        return h.reshape(h.shape[:-1] + self.out)


class FlatNet(nnx.Module):
    """Like TinyNet for events of several axes (flattened first)."""

    def __init__(self, event, out, seed, scale=0.5):
        self.event = tuple(event)
        self.net = TinyNet(int(np.prod(event, dtype=int)), out, seed, scale)

    def __call__(self, x):
        nb = x.ndim - len(self.event)
        return self.net(x.reshape(x.shape[:nb] + (-1,)))


def seeded(seed, *salt):
    import zlib
    return np.random.default_rng([seed] + [zlib.crc32(str(s).encode()) for s in salt])


def scalar_entries(seed):
    E = []
    events = [(), (3,), (2, 3)]
    kinds = ["scalar", "full", "trailing"]

    def add(name, mk, dom, endo=False, events_=events, kinds_=kinds, **kw):
        for ev in events_:
            seen = set()
            for kind in kinds_:
                ps = pshape(kind, ev)
                if ps in seen:
                    continue
                seen.add(ps)
                r = seeded(seed, name, ev, kind)
                E.append(Entry(f"{name}[{','.join(map(str, ev))}|{kind}]",
                               (lambda mk=mk, ps=ps, r0=(name, ev, kind): mk(seeded(seed, *r0), ps)),
                               ev, dom(ev), endo=endo, group=name, **kw))

    one = ["scalar"]
    N = lambda r, ps, s=1.0: arr(r.normal(size=ps) * s)
    add("GaussianCDF", lambda r, ps: bijx.GaussianCDF(scale=N(r, ps, .3), mean=N(r, ps, .5)), lambda e: real(e, 0.7), endo=True, tol=64)
    add("Tan", lambda r, ps: bijx.Tan(), unit_iv, kinds_=one)
    add("Sigmoid", lambda r, ps: bijx.Sigmoid(), lambda e: real(e, 2), endo=True, kinds_=one)
    add("Tanh", lambda r, ps: bijx.Tanh(), lambda e: real(e, 1), endo=True, kinds_=one)
    add("Exponential", lambda r, ps: bijx.Exponential(), lambda e: real(e, 1), kinds_=one)
    add("SoftPlus", lambda r, ps: bijx.SoftPlus(), lambda e: real(e, 3), endo=True, kinds_=one)
    add("Sinh", lambda r, ps: bijx.Sinh(), lambda e: real(e, 1), kinds_=one)
    add("Power", lambda r, ps: bijx.Power(exponent=arr(r.uniform(0.4, 2.5, size=ps))), pos)
    add("PowerNeg", lambda r, ps: bijx.Power(exponent=arr(-r.uniform(0.4, 1.5, size=ps)), transform_exponent=None), pos)
    add("AffineExp", lambda r, ps: bijx.AffineLinear(scale=N(r, ps, .4), shift=N(r, ps)), lambda e: real(e, 2), endo=True)
    add("AffineNeg", lambda r, ps: bijx.AffineLinear(scale=arr(-r.uniform(.5, 2, size=ps)), shift=N(r, ps), transform_scale=None,
                                                     transform_shift=jnp.tanh), lambda e: real(e, 2), endo=True)
    add("Scaling", lambda r, ps: bijx.Scaling(scale=arr(np.where(r.random(ps) < .5, -1, 1) * r.uniform(.5, 2, size=ps))), lambda e: real(e, 2), endo=True)
    add("Shift", lambda r, ps: bijx.Shift(shift=N(r, ps)), lambda e: real(e, 2), endo=True)
    add("BetaStretch", lambda r, ps: bijx.BetaStretch(a=N(r, ps)), unit_iv, endo=False, tol=64)
    add("CubicRational", lambda r, ps: bijx.CubicRational(loc=N(r, ps), alpha=N(r, ps, 2), beta=N(r, ps, 2)), lambda e: real(e, 3), endo=True, tol=64)
    add("SinhConjugation", lambda r, ps: bijx.SinhConjugation(loc=N(r, ps), alpha=N(r, ps), beta=N(r, ps), mu=N(r, ps), nu=N(r, ps)), lambda e: real(e, 3), endo=True, tol=64)
    add("CubicConjugation", lambda r, ps: bijx.CubicConjugation(loc=N(r, ps), beta=N(r, ps), a=N(r, ps), b=N(r, ps)), lambda e: real(e, 2), endo=True, tol=64)

    # splines: parameters have the (full or scalar) event shape
    def spline(r, ps, knots, **kw):
        s = bijx.MonotoneRQSpline(knots, ps, rngs=nnx.Rngs(0), **kw)
        s.widths.set_value(arr(r.normal(size=(*ps, knots))))
        s.heights.set_value(arr(r.normal(size=(*ps, knots))))
        s.slopes.set_value(arr(r.normal(size=(*ps, knots - 1)) * 2))
        return s

    def mixed(ev):
        def f(rng, n):
            x = rng.uniform(0.01, 0.99, size=(n, *ev))
            y = rng.uniform(-1.5, 2.5, size=(n, *ev))
            return np.where(rng.random(size=(n, *ev)) < 0.7, x, y)
        return f
    for k in (1, 2, 5, 9):
        add(f"Spline{k}", lambda r, ps, k=k: spline(r, ps, k), mixed, endo=True, tol=64)
    add("SplineMin", lambda r, ps: spline(r, ps, 4, min_bin_width=.1, min_bin_height=.15, min_slope=.4), mixed, endo=True, tol=64)
    add("RayAffine", lambda r, ps: bijx.RayTransform(bijx.AffineLinear(scale=N(r, ps, .3), shift=N(r, ps))), lambda e: real(e, 2), endo=True, kinds_=one)
    # events of more axes
    more = dict(events_=[(2, 1, 2)], endo=True)
    add("AffineExp", lambda r, ps: bijx.AffineLinear(scale=N(r, ps, .4), shift=N(r, ps)), lambda e: real(e, 2), **more)
    add("Tanh", lambda r, ps: bijx.Tanh(), lambda e: real(e, 1), kinds_=one, **more)
    add("Spline5", lambda r, ps: spline(r, ps, 5), mixed, tol=64, **more)
    add("SinhConjugation", lambda r, ps: bijx.SinhConjugation(loc=N(r, ps), alpha=N(r, ps), beta=N(r, ps), mu=N(r, ps), nu=N(r, ps)), lambda e: real(e, 3), tol=64, kinds_=["full"], **more)
    add("RaySoftPlus", lambda r, ps: bijx.RayTransform(bijx.SoftPlus()), lambda e: pos(e), kinds_=one)
    return E


def radial_entries(seed):
    E = []
    for d in (1, 2, 3, 5):
        r = seeded(seed, "radial", d)
        c, s = r.normal(size=d), r.normal(size=d) * .4
        E.append(Entry(f"RadialAffine[{d}]", lambda c=c, s=s: bijx.Radial(
            bijx.RayTransform(bijx.AffineLinear(scale=arr(.3), shift=arr(.2))), center=arr(c), scale=arr(s)),
            (d,), real((d,), 1.5), endo=True, tol=64, group="Radial"))
        E.append(Entry(f"RadialSinh[{d}]", lambda c=c, s=s: bijx.Radial(
            bijx.Sinh(), center=arr(c), scale=arr(s)), (d,), real((d,), .6), tol=64, group="Radial"))
        E.append(Entry(f"RadialPow[{d}]", lambda c=c, s=s: bijx.Radial(
            bijx.Power(exponent=arr(1.5)), center=arr(c * 0), scale=arr(s * 0 + .2)), (d,), real((d,), 1), tol=64, group="Radial"))
        if d > 1:
            E.append(Entry(f"RadialCondRay[{d}]", lambda c=c, s=s, d=d: bijx.RadialConditional(
                bijx.RayTransform(bijx.AffineLinear(scale=arr(.3), shift=arr(.0))),
                TinyNet(d, (2,), 6, .3), center=arr(c), scale=arr(s)),
                (d,), real((d,), 1.5), tol=64, group="RadialConditional"))
    return E


def fourier_entries(seed):
    E = []
    from bijx.fourier import FFTRep, fft_momenta
    for sp, ch in [((4,), ()), ((5,), ()), ((1,), ()), ((2, 3), ()), ((4, 4), ()), ((3, 4), (2,)), ((2, 2, 3), ()), ((3, 5), ()), ((4, 2), (2,))]:
        r = seeded(seed, "four", sp, ch)
        rshape = sp[:-1] + (sp[-1] // 2 + 1,)
        k2 = np.sum(np.asarray(fft_momenta(sp, lattice=True)) ** 2, -1)
        sc = np.exp(-.2 * k2) * 1.3 * (-1 if len(sp) == 2 else 1)
        ev = sp + ch
        E.append(Entry(f"SpectrumScaling{sp}{ch}", lambda sc=sc, ch=ch: bijx.SpectrumScaling(arr(sc), channel_dim=len(ch)),
                       ev, real(ev, 1.), endo=True, group="SpectrumScaling"))
        for fs, pre, half, var in [(True, True, True, False), (False, False, False, False), (True, True, False, True)]:
            E.append(Entry(f"FreeTheory{sp}{ch}{int(fs)}{int(pre)}{int(half)}{int(var)}",
                           lambda sp=sp, ch=ch, fs=fs, pre=pre, half=half, var=var: bijx.FreeTheoryScaling(
                               nnx.Param(arr(.7)) if var else .7, sp, channel_dim=len(ch), finite_size=fs, precompute_spectrum=pre, half=half),
                           ev, real(ev, 1.), endo=True, group="FreeTheoryScaling"))
        n = int(np.prod(sp))
        E.append(Entry(f"ToFourierReal{sp}{ch}", lambda sp=sp, ch=ch: bijx.ToFourierData(sp, rep=FFTRep.comp_real, channel_dim=len(ch), unpack=True),
                       ev, real(ev, 1.), out_event=(n,) + ch, jac=False, group="ToFourierData"))
    return E


def meta_entries(seed):
    E = []

    def e(name, mk, ev, out):
        E.append(Entry(name, mk, ev, real(ev), out_event=out, group="meta"))
    for a, b in [((2, 3), (6,)), ((6,), (3, 2)), ((4,), (2, 2, 1)), ((1,), ()), ((), (1,)), ((2, 3), (3, 2)), ((2, 2), (2, 2))]:
        e(f"Reshape{a}->{b}", lambda a=a, b=b: bijx.Reshape(a, b), a, b)
    e("ExpandDims-1", lambda: bijx.ExpandDims(-1), (3,), (3, 1))
    e("ExpandDims-2", lambda: bijx.ExpandDims(-2), (3,), (1, 3))
    e("ExpandDims-1s", lambda: bijx.ExpandDims(-1), (), (1,))
    e("SqueezeDims-1", lambda: bijx.SqueezeDims(-1), (2, 1), (2,))
    e("SqueezeDims-2", lambda: bijx.SqueezeDims(-2), (1, 2), (2,))
    e("MetaFlip", lambda: bijx.MetaLayer(lambda x: x[..., ::-1], lambda x: x[..., ::-1]), (4,), (4,))
    e("MetaRoll", lambda: bijx.MetaLayer(lambda x: jnp.roll(x, 1, -1), lambda x: jnp.roll(x, -1, -1)), (2, 3), (2, 3))
    e("Identity", lambda: bijx.Identity, (3,), (3,))
    return E


def inner_bijection(kind):
    """Scalar/vector templates used inside coupling layers."""
    if kind == "affine":
        return bijx.AffineLinear(scale=arr(.1), shift=arr(.2)), 0
    if kind == "spline":
        return bijx.MonotoneRQSpline(4, (), rngs=nnx.Rngs(1)), 0
    if kind == "sinh":
        return bijx.SinhConjugation(loc=arr(.0), alpha=arr(.5), beta=arr(.1), mu=arr(.1), nu=arr(.1)), 0
    if kind == "const":   # a frozen part inside the template
        return bijx.Chain(bijx.Scaling(scale=bijx.Const(arr(-1.5))), bijx.Shift(shift=arr(.1))), 0
    raise KeyError(kind)


def coupling_layer(mask, kind, split, seed, rank=0, vec=None):
    if rank == 0:
        tmpl, _ = inner_bijection(kind)
        rec = bijx.ModuleReconstructor(tmpl)
        p = rec.params_total_size
        if split:
            net = TinyNet(mask.count_secondary, (mask.count_primary, p), seed, .4)
        else:
            net = FlatNet(mask.event_shape, mask.event_shape + (p,), seed, .4)
        return bijx.GeneralCouplingLayer(net, mask, rec, bijection_event_rank=0, split=split)
    # vector-valued inner bijection
    if split:
        n = mask.count_primary
        tmpl = bijx.Chain(bijx.AffineLinear(scale=arr(np.zeros(n)), shift=arr(np.zeros(n))),
                          bijx.MetaLayer(lambda x: x[..., ::-1], lambda x: x[..., ::-1]))
        rec = bijx.ModuleReconstructor(tmpl)
        net = TinyNet(mask.count_secondary, (rec.params_total_size,), seed, .4)
    else:
        inner = mask.event_shape[len(mask.event_shape) - rank:]
        outer = mask.event_shape[:len(mask.event_shape) - rank]
        tmpl = bijx.AffineLinear(scale=arr(np.zeros(inner)), shift=arr(np.zeros(inner)))
        rec = bijx.ModuleReconstructor(tmpl)
        net = FlatNet(mask.event_shape, outer + (rec.params_total_size,), seed, .4)
    return bijx.GeneralCouplingLayer(net, mask, rec, bijection_event_rank=rank, split=split)


def coupling_entries(seed):
    E = []
    M = bijx.BinaryMask
    r = seeded(seed, "masks")
    masks = {
        "chk4": lambda: bijx.checker_mask((4,), True),
        "chk3x2": lambda: bijx.checker_mask((3, 2), False),
        "chk2x2x3": lambda: bijx.checker_mask((2, 2, 3), True),
        "first5": lambda: M.from_boolean_mask(np.array([1, 0, 0, 1, 0], bool)),
        "idx": lambda: M.from_indices((np.array([3, 0]),), (4,)),
        "idx2d": lambda: ~M.from_indices((np.array([1, 0, 1]), np.array([2, 0, 0])), (2, 3)),
        "rnd": lambda: M.from_boolean_mask(np.array([[1, 0, 1], [0, 0, 1]], bool)),
    }
    for i, (mn, mk) in enumerate(masks.items()):
        for kind in ("affine", "spline", "sinh", "const"):
            if kind in ("sinh", "const") and i % 2:
                continue
            for split in (True, False):
                ev = tuple(mk().event_shape)
                dom = real(ev, 1.0) if kind != "spline" else (lambda rng, n, ev=ev: rng.uniform(-.3, 1.3, size=(n, *ev)))
                E.append(Entry(f"Coupling-{mn}-{kind}-{'split' if split else 'mult'}",
                               lambda mk=mk, kind=kind, split=split, i=i: coupling_layer(mk(), kind, split, 10 + i),
                               ev, dom, endo=True, tol=64, group="Coupling"))
        ev = tuple(mk().event_shape)
        E.append(Entry(f"Coupling-{mn}-vec-split", lambda mk=mk, i=i: coupling_layer(mk(), "vec", True, 30 + i, rank=1),
                       ev, real(ev, 1.), endo=True, tol=64, group="Coupling"))
    rows = np.array([[1, 1], [0, 0], [1, 1]], bool)
    E.append(Entry("Coupling-rows-vec1-mult", lambda: coupling_layer(M.from_boolean_mask(rows), "vec", False, 41, rank=1),
                   (3, 2), real((3, 2), 1.), endo=True, tol=64, group="Coupling"))
    cube = np.broadcast_to(np.array([[1, 0], [0, 1]], bool)[:, :, None], (2, 2, 3))
    E.append(Entry("Coupling-cube-vec1-mult", lambda: coupling_layer(M.from_boolean_mask(np.array(cube)), "vec", False, 42, rank=1),
                   (2, 2, 3), real((2, 2, 3), 1.), endo=True, tol=64, group="Coupling"))
    half = np.broadcast_to(np.array([1, 0, 1], bool)[:, None, None], (3, 2, 2))
    E.append(Entry("Coupling-half-vec2-mult", lambda: coupling_layer(M.from_boolean_mask(np.array(half)), "vec", False, 43, rank=2),
                   (3, 2, 2), real((3, 2, 2), 1.), endo=True, tol=64, group="Coupling"))
    return E


def stack_of(mk, seeds):
    """A ScanChain stack: parameters of several instances with a leading axis."""
    mods = [mk(s) for s in seeds]
    gs = [nnx.split(m) for m in mods]
    st = jax.tree.map(lambda *a: jnp.stack(a), *[g[1] for g in gs])
    return nnx.merge(gs[0][0], st)


def compound_entries(seed):
    E = []
    r = seeded(seed, "compound")

    def aff(s, ps=()):
        rr = seeded(seed, "aff", s)
        return bijx.AffineLinear(scale=arr(rr.normal(size=ps) * .3), shift=arr(rr.normal(size=ps)))
    mk = {
        "ChainMix": (lambda: bijx.Chain(aff(1, (3,)), bijx.Tanh(), bijx.Scaling(scale=arr(-.7)), bijx.Sinh()), (3,), True),
        "ChainNest": (lambda: bijx.Chain(bijx.Chain(aff(1), bijx.SoftPlus()).invert().invert(), bijx.Inverse(aff(2, (2, 2)))), (2, 2), True),
        "ChainEmpty": (lambda: bijx.Chain(), (2,), True),
        "InverseChain": (lambda: bijx.Inverse(bijx.Chain(bijx.Sinh(), aff(3, (3,)), bijx.Sinh())), (3,), True),
        "CondT": (lambda: bijx.CondInverse(bijx.Chain(aff(4), bijx.Sinh()), True), (2,), True),
        "CondF": (lambda: bijx.CondInverse(bijx.Chain(aff(4), bijx.Shift(shift=arr([1., 2.]))), False), (2,), True),
        "CondInv": (lambda: bijx.CondInverse(aff(5, (3,)), True).invert(), (3,), True),
        "Frozen": (lambda: bijx.Frozen(bijx.Chain(aff(6), bijx.Tanh())), (3,), True),
        "Partial": (lambda: bijx.Partial(aff(7)), (), True),
        "Scan3": (lambda: bijx.ScanChain(stack_of(lambda s: aff(s, (2,)), [1, 2, 3])), (2,), True),
        "ScanChainIn": (lambda: bijx.ScanChain(stack_of(lambda s: bijx.Chain(aff(s), bijx.Tanh(), bijx.Scaling(scale=arr(2.0 + s))), [1, 2])), (2, 2), True),
        "ReshapeCoupling": (lambda: bijx.Chain(bijx.Reshape((2, 2), (4,)), coupling_layer(bijx.checker_mask((4,), True), "affine", True, 3),
                                               coupling_layer(~bijx.checker_mask((4,), True), "affine", True, 4), bijx.Reshape((4,), (2, 2))), (2, 2), True),
        "RealNVP": (lambda: bijx.Chain(*[coupling_layer(bijx.checker_mask((5,), i % 2 == 0), "affine", i % 2 == 0, i) for i in range(4)]), (5,), True),
        "ScanCoupling": (lambda: bijx.ScanChain(stack_of(lambda s: coupling_layer(bijx.checker_mask((4,), True), "affine", True, s), [1, 2, 3])), (4,), True),
        "SpecChain": (lambda: bijx.Chain(bijx.FreeTheoryScaling(.5, (3, 4)), aff(9), bijx.FreeTheoryScaling(.5, (3, 4)).invert()), (3, 4), True),
    }
    for n, (f, ev, endo) in mk.items():
        E.append(Entry(n, f, ev, real(ev, .8), endo=endo, tol=64, group="compound"))
    E.append(Entry("LogitChain", lambda: bijx.Chain(bijx.Sigmoid(), bijx.MonotoneRQSpline(4, (3,), rngs=nnx.Rngs(3)), bijx.Inverse(bijx.Sigmoid())),
                   (3,), real((3,), 1.), endo=True, tol=64, group="compound"))
    E.append(Entry("TanCDF", lambda: bijx.Chain(bijx.GaussianCDF(scale=arr(1.), mean=arr(0.)), bijx.Tan()), (3,), real((3,), .6), endo=False, tol=256, group="compound"))
    return E


def catalogue(seed):
    E = (scalar_entries(seed) + radial_entries(seed) + fourier_entries(seed) + meta_entries(seed)
         + coupling_entries(seed) + compound_entries(seed))
    return [e for e in E if e is not None]
