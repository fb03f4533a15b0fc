"""C18: strictly monotone elementwise maps against spec/Mono.tla."""
import math
from statistics import NormalDist

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx.bijections import analytic
from bijx.bijections.splines import rational_quadratic_spline
from harness import zoo
from harness.core import UNIT, err, ints, q

FULL = 1 << 24
EPS = 2.0 ** -52


def guard(out, what, base, fn):
    try:
        r = fn()
        for x in r if isinstance(r, list) else [r]:
            out.append(dict(base, **x) if "key" not in x else dict(ep=base["ep"], **x))
    except Exception as ex:  # noqa: BLE001
        out.append(err(what, ex, **base))


def spinv(y):
    """Inverse of softplus."""
    return float(np.log(np.expm1(y)))


def fixed(x, unit):
    return q(x, unit)


# ------------------------------------------------------------ exact families
def family(f, p):
    """The map, its arguments as a function of k/m, and how results are read."""
    a, b, c = p
    P = lambda v: jnp.asarray(float(v))
    ident = lambda y: y
    lg = lambda k, m: math.log(k / m)
    fr = lambda k, m: k / m
    return {
        "sigmoid": lambda: (bijx.Sigmoid(), lg, ident),
        "tanh": lambda: (bijx.Tanh(), lambda k, m: 0.5 * math.log(k / m), ident),
        "exp": lambda: (bijx.Exponential(), lg, ident),
        "softplus": lambda: (bijx.SoftPlus(), lg, np.exp),
        "sinh": lambda: (bijx.Sinh(), lg, ident),
        "tan": lambda: (bijx.Tan(), lambda k, m: 0.5 + math.atan2(k, m) / math.pi, ident),
        "gauss": lambda: (bijx.GaussianCDF(scale=P(spinv(1.75)), mean=P(-0.5)), lambda k, m: -0.5 + 1.75 * NormalDist().inv_cdf(k / (k + m)), ident),
        "beta": lambda: (bijx.BetaStretch(a=P(spinv(a))), lambda k, m: k / (k + m), ident),
        "power": lambda: (bijx.Power(exponent=P(-a)), fr, ident),        # the default takes absolute values
        "root": lambda: (bijx.Power(exponent=P(1 / a), transform_exponent=None), lambda k, m: (k / m) ** a, ident),
        "affine": lambda: (bijx.AffineLinear(scale=P(a / b), shift=P(c), transform_scale=None) if a < 0 else
                           bijx.AffineLinear(scale=P(math.log(a / b)), shift=P(c)), fr, ident),
        "shift": lambda: (bijx.Shift(shift=P(c)), fr, ident),
        "scale": lambda: (bijx.Scaling(scale=P(a / b)), fr, ident),
        "cubrat": lambda: (bijx.CubicRational(loc=P(c), alpha=P(a), beta=P(b), alpha_transform=None, beta_transform=None), lambda k, m: c + k / m, lambda y: y - c),
        "sinhc": lambda: (bijx.SinhConjugation(loc=P(0.5), alpha=P(spinv(1.24)), beta=P(c), mu=P(math.sinh(math.log(a))), nu=P(math.sinh(math.log(b)))),
                          lambda k, m: 0.5 + 1.25 * math.log(k / m), lambda y: np.sinh((y - 0.5) / 1.25)),
        "cubconj": lambda: (bijx.CubicConjugation(loc=P(-1.5), beta=P(c), a=P(spinv(a)), b=P(spinv(b))), lambda k, m: -1.5 + k / m,
                            lambda y: a * (y + 1.5) + b * (y + 1.5) ** 3),
        "ray": lambda: (bijx.RayTransform(bijx.Power(exponent=P(2), transform_exponent=None)), lambda k, m: math.sqrt(k / m), ident),
    }[f]()


class Scalar:
    """A bijection of scalars, elementwise."""

    def __init__(self, b):
        self.b, self.forward, self.reverse = b, b.forward, b.reverse

    def fwd(self, x):
        return self.b.forward(x, jnp.zeros(jnp.shape(x)))[0]

    def rev(self, x):
        return self.b.reverse(x, jnp.zeros(jnp.shape(x)))[0]


def chains(cases):
    out = []
    for i, cs in cases:
        f, p, ch = cs["fam"], cs["par"], cs["chain"]
        base = dict(ep=f"c{i}", key=f"{f} {p}")
        def go():
            res = []
            b, arg, read = family(f, p)
            x = jnp.asarray([arg(k, m) for k, m in ch], float)
            n = len(ch)
            if not hasattr(b, "fwd"):
                b = Scalar(b)
            def rec(how, y, xb):
                v = np.asarray(read(np.asarray(y).ravel()))
                top = max(1.0, float(np.nanmax(np.abs(v))))
                bits = max(0, min(20, int(math.floor(27 - math.log2(top)))))
                # softplus and the conjugations are read through exponentials
                res.append(dict(ev="Chain", key=f"{f} {p} {how}", fam=f, par=p, bits=bits, out=q(v, 2.0 ** bits), args=q(x), back=q(xb), tol=16))
            rec("fwd", b.fwd(x), b.rev(b.fwd(x)))
            rec("jit", jax.jit(b.fwd)(x), jax.jit(lambda v: b.rev(b.fwd(v)))(x))
            y, ld = b.forward(x[:, None], jnp.zeros(n))
            xb, ld = b.reverse(y, ld)
            rec("forward", y, xb.ravel())
            y, ld = b.forward(x, jnp.zeros(()))
            xb, _ = b.reverse(y, ld)
            rec("event", y, xb)
            if i % 3 == 0:
                rec("each", jnp.stack([b.fwd(v) for v in x]), jnp.stack([b.rev(b.fwd(v)) for v in x]))
            return res
        guard(out, f, base, go)
    return out


# -------------------------------------------------------------------- splines
def raw_bins(w, m):
    n, w = len(w), np.asarray(w, float)
    R = 64 - n * m
    with np.errstate(divide="ignore"):
        r = np.log((w - m) / R)
    return np.where(np.isfinite(r), r, -1e3)


def raw_slopes(d, dm):
    c = math.log(2) / (1 - dm / 16)
    return np.array([spinv((v - dm) / 16 * c) / c if v > dm else -1e4 for v in d])


def splines(groups):
    """Each group is a list of splines with equally many bins, run together."""
    out = []
    for gi, dm, grp in groups:
        n = len(grp[0]["xs"]) - 1
        rng = np.random.default_rng(gi)
        mw, mh = grp[0]["minw"], grp[0]["minh"]
        shift = rng.normal(size=2) * 5                       # softmax ignores a common shift
        W = jnp.asarray(np.stack([raw_bins(np.diff(c["xs"]), mw) for c in grp]) + shift[0])
        H = jnp.asarray(np.stack([raw_bins(np.diff(c["ys"]), mh) for c in grp]) + shift[1])
        S = jnp.asarray(np.stack([raw_slopes(c["ds"][1:-1], dm) for c in grp]).reshape(len(grp), n - 1))
        kw = dict(min_bin_width=mw / 64, min_bin_height=mh / 64, min_slope=dm / 16)
        base = dict(ep=f"s{gi}", key=f"spline group {gi}")
        G = len(grp)
        X = []
        for c in grp:
            x = set(rng.integers(0, 513, 24).tolist()) | {0, 512, -37, 700, -1, 513} | {8 * v for v in c["xs"]} | {8 * v + 1 for v in c["xs"]} | {8 * v - 1 for v in c["xs"]}
            X.append(sorted(x)[:40] if len(x) >= 40 else sorted(x | set(range(100, 100 + 80))))
        k = min(map(len, X))
        X = np.array([sorted(rng.permutation(x)[:k].tolist()) for x in X])
        MB = [np.array([(a + b) / 128 for a, b in zip(c["xs"], c["xs"][1:])]) for c in grp]
        def go():
            res = []
            def fn(inv):
                return lambda x: rational_quadratic_spline(x, W, H, S, inverse=inv, **kw)
            def mod(shape):
                m = bijx.MonotoneRQSpline(n, shape, rngs=nnx.Rngs(0), **kw)
                m.widths.set_value(W.reshape(*shape, n))
                m.heights.set_value(H.reshape(*shape, n))
                m.slopes.set_value(S.reshape(*shape, n - 1))
                return m
            m = mod((G,))
            m2 = mod((1, G))
            routes = {
                "function": (lambda x: fn(False)(x)[0], lambda x: fn(True)(x)[0]),
                "module": (lambda x: m.forward(x, jnp.zeros(x.shape[:-1]))[0], lambda x: m.reverse(x, jnp.zeros(x.shape[:-1]))[0]),
                "jit": (jax.jit(lambda x: m2.forward(x[..., None, :], jnp.zeros(x.shape[:-1]))[0][..., 0, :]), jax.jit(lambda x: m2.reverse(x[..., None, :], jnp.zeros(x.shape[:-1]))[0][..., 0, :])),
            }
            for how, (f, r) in routes.items():
                y = f(jnp.asarray(X.T / 512.0))
                xb = r(y)
                kn = jnp.asarray(np.array([c["xs"] for c in grp]).T / 64.0)
                md = jnp.asarray(np.array(MB).T)
                if how == "function":
                    slope = lambda x: jnp.exp(fn(False)(x)[1])
                    slope_r = lambda x: jnp.exp(-fn(True)(f(x))[1])
                else:
                    ds = jax.grad(lambda x: jnp.sum(f(x)))
                    slope, slope_r = ds, lambda x: 1 / jax.grad(lambda x: jnp.sum(r(x)))(f(x))
                use = slope if how != "module" else slope_r
                # the knots themselves may fall on either side by rounding, where the slope is the same
                ks, ms = np.array(slope(kn)), np.array(use(md))
                if how != "function":                         # gradients of clip are halved at knots
                    ks = np.array(slope(kn.at[1:-1].add(1e-9)))
                    ks[0], ks[-1] = 1.0, 1.0
                ends = np.asarray(f(jnp.asarray([[0.0] * G, [1.0] * G])))
                outs = np.asarray(slope(jnp.asarray([[-.25] * G, [1.5] * G, [-1e-6] * G])))
                for j, c in enumerate(grp):
                    res.append(dict(ev="Spline", key=f"spline {how} {c['xs']} {c['ys']} {c['ds']} min {mw} {mh} {dm}", s=dict(xs=c["xs"], ys=c["ys"], ds=c["ds"]),
                                    X=X[j].tolist(), y=q(y[:, j], FULL), x=q(xb[:, j], FULL), ks=q(ks[:, j]), ms=q(ms[:, j]), mtol=64,
                                    ends=q(ends[:, j], FULL), outside=q(outs[:, j])))
            return res
        guard(out, "spline", base, go)
    return out


# ------------------------------------------------------------ order and range
def order(key, f, x, strict, up, lo, hi, jit=False):
    """f at rising x; strict marks gaps over which a strict change must show."""
    y = np.asarray((jax.jit(f) if jit else f)(jnp.asarray(x)), float)
    nan = bool(np.isnan(y).any())
    y0 = np.where(np.isnan(y), 0.0, y)
    z = np.clip(y0, -1e300, 1e300)
    sg = 1 if up else -1
    scale = np.maximum(np.abs(z[:-1]), np.abs(z[1:])) * EPS + 1e-300
    drop = np.minimum(np.maximum(sg * (z[:-1] - z[1:]), 0) / scale, 1e6)
    lo_ = -np.inf if lo is None else lo - 4 * EPS * max(abs(lo), abs(hi or 1))
    hi_ = np.inf if hi is None else hi + 4 * EPS * max(abs(hi), abs(lo or 1))
    rk = np.unique(np.concatenate([y0, [lo_, hi_]]), return_inverse=True)[1]
    return dict(ev="Order", key=key, r=rk[:-2].tolist(), lo=int(rk[-2]), hi=int(rk[-1]), strict=np.asarray(strict, bool).tolist(), drop=np.ceil(drop).astype(int).tolist(), up=bool(up), nan=nan)


def grid(rng, kind, special=()):
    """Rising arguments: spread over magnitudes, dense in the core, clustered
    around special points."""
    if kind == "real":
        x = np.concatenate([rng.normal(size=60) * 3, 10.0 ** rng.uniform(-12, 12, 30) * rng.choice([-1, 1], 30), np.linspace(-40, 40, 81), [0.0]])
    elif kind == "pos":
        x = np.concatenate([10.0 ** rng.uniform(-12, 12, 60), rng.uniform(0, 3, 60), [0.0]])
    else:
        x = np.concatenate([rng.uniform(0, 1, 80), 10.0 ** rng.uniform(-12, -1, 20), 1 - 10.0 ** rng.uniform(-12, -1, 20), [0.0, 1.0]])
    for s in special:
        x = np.concatenate([x, [s], s + (1 + abs(s)) * 10.0 ** rng.uniform(-11, -1, 8) * rng.choice([-1, 1], 8), [np.nextafter(s, np.inf), np.nextafter(s, -np.inf)]])
    if kind == "pos":
        x = x[x >= 0]
    if kind == "unit":
        x = x[(x >= 0) & (x <= 1)]
    return np.unique(x)


def strict_gaps(x, core, gap=1e-6):
    d = np.diff(x)
    ok = (x[:-1] >= core[0]) & (x[1:] <= core[1])
    return ok & (d > gap * (1 + np.abs(x[1:])))


def orders(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(1000 + i)
        w = [0.5, 2.0, 6.0][i % 3]
        P = lambda s=1.0: jnp.asarray(float(rng.normal() * w * s))
        cub = lambda: bijx.CubicRational(loc=P(), alpha=P(4), beta=P(2))
        al = float(rng.normal() * w)
        thr = [15.0 * (float(jax.nn.softplus(al)) + .01) * s + .5 for s in (-1, 1)]
        a0 = rng.normal() * w
        neg = jnp.asarray(-float(rng.uniform(.3, 2)))
        specs = [
            # name, make, kind, special, core (strict), rising, forward range, reverse grid kind or None, reverse core
            ("GaussianCDF", lambda: bijx.GaussianCDF(scale=jnp.asarray(.3), mean=jnp.asarray(1.)), "real", (), (-3, 5), True, (0, 1), "unit", (.001, .999)),
            ("GaussianCDF random", lambda: bijx.GaussianCDF(scale=P(), mean=P()), "real", (), None, True, (0, 1), "unit", None),
            ("Tan", lambda: bijx.Tan(), "unit", (.5,), (0, 1), True, (None, None), "real", (-50, 50)),
            ("Sigmoid", lambda: bijx.Sigmoid(), "real", (0.,), (-30, 10), True, (0, 1), "unit", (0, 1)),
            ("Tanh", lambda: bijx.Tanh(), "real", (0.,), (-7, 7), True, (-1, 1), None, None),
            ("Exponential", lambda: bijx.Exponential(), "real", (0.,), (-40, 40), True, (0, None), "pos", (0, 1e12)),
            ("SoftPlus", lambda: bijx.SoftPlus(), "real", (0., 20., -20.), (-40, 1e12), True, (0, None), "pos", (0, 1e12)),
            ("Sinh", lambda: bijx.Sinh(), "real", (0.,), (-40, 40), True, (None, None), "real", (-1e12, 1e12)),
            ("Power", lambda: bijx.Power(exponent=P()), "pos", (1.,), None, True, (0, None), "pos", None),
            ("Power 2.5", lambda: bijx.Power(exponent=jnp.asarray(2.5)), "pos", (1.,), (.01, 100), True, (0, None), "pos", (.01, 100)),
            ("Power negative", lambda: bijx.Power(exponent=neg, transform_exponent=None), "pos", (1.,), (.01, 100), False, (0, None), "pos", (.01, 100)),
            ("Affine", lambda: bijx.AffineLinear(scale=P(), shift=P()), "real", (), None, True, (None, None), "real", None),
            ("Affine negative", lambda: bijx.AffineLinear(scale=neg, shift=P(), transform_scale=None), "real", (), (-1e12, 1e12), False, (None, None), "real", (-1e12, 1e12)),
            ("Scaling", lambda: bijx.Scaling(scale=neg), "real", (), (-1e12, 1e12), False, (None, None), "real", (-1e12, 1e12)),
            ("Shift", lambda: bijx.Shift(shift=P()), "real", (), (-1e12, 1e12), True, (None, None), "real", (-1e12, 1e12)),
            ("BetaStretch", lambda: bijx.BetaStretch(a=jnp.asarray(float(a0))), "unit", (.5,), None, True, (0, 1), "unit", None),
            ("BetaStretch a=2", lambda: bijx.BetaStretch(a=jnp.asarray(spinv(2.))), "unit", (.5,), (.001, .999), True, (0, 1), "unit", (.001, .999)),
            ("CubicRational", cub, "real", (), (-1e6, 1e6), True, (None, None), "real", (-1e6, 1e6)),
            ("CubicRational extreme", lambda: bijx.CubicRational(loc=P(), alpha=jnp.asarray([-1e3, 1e3, 40., -40.][i % 4]), beta=jnp.asarray([-1e3, 30.][i % 2])), "real", (), (-1e6, 1e6), True, (None, None), "real", None),
            ("SinhConjugation", lambda: bijx.SinhConjugation(loc=jnp.asarray(.5), alpha=jnp.asarray(al), beta=P(), mu=P(), nu=P()), "real", tuple(thr), (-1e6, 1e6) if w < 6 else None, True, (None, None), "real", (-1e6, 1e6) if w < 6 else None),
            ("CubicConjugation", lambda: bijx.CubicConjugation(loc=P(), beta=P(), a=P(), b=P()), "real", (), (-1e4, 1e4) if w < 6 else None, True, (None, None), "real", (-1e4, 1e4) if w < 6 else None),
            ("Ray", lambda: bijx.RayTransform(bijx.Sinh()), "real", (0.,), (-40, 40), True, (None, None), "real", (-1e12, 1e12)),
        ]
        knots = int(rng.integers(1, 9))
        mins = [dict(), dict(min_bin_width=.02, min_bin_height=.05, min_slope=.3)][i % 2]
        def spl():
            m = bijx.MonotoneRQSpline(knots, (), rngs=nnx.Rngs(0), **mins)
            m.widths.set_value(jnp.asarray(r2.normal(size=knots) * 3))
            m.heights.set_value(jnp.asarray(r2.normal(size=knots) * 3))
            m.slopes.set_value(jnp.asarray(r2.normal(size=knots - 1) * 3))
            return m
        r2 = np.random.default_rng(i)
        s0 = spl()
        kx = lambda v, m: np.concatenate([[0.], np.cumsum(m + (1 - m * knots) * np.asarray(jax.nn.softmax(v.get_value())))])
        kxs, kys = kx(s0.widths, mins.get("min_bin_width", 1e-3)), kx(s0.heights, mins.get("min_bin_height", 1e-3))
        r2 = np.random.default_rng(i)
        for name, mk, kind, sp, core, up, (lo, hi), rkind, rcore in specs:
            base = dict(ep=f"o{i}{name}", key=f"{name} {i}")
            def go():
                b = mk()
                x = grid(rng, kind, sp)
                st = strict_gaps(x, core) if core else np.zeros(len(x) - 1, bool)
                f = lambda v: b.forward(v, jnp.zeros(v.shape))[0]
                res = [order(f"{name} {i} forward", f, x, st, up, lo, hi, jit=bool(i % 2))]
                if rkind:
                    y = grid(rng, rkind, sp if rkind == kind else ())
                    st = strict_gaps(y, rcore) if rcore else np.zeros(len(y) - 1, bool)
                    g = lambda v: b.reverse(v, jnp.zeros(v.shape))[0]
                    rng_ = dict(unit=(0, 1), pos=(0, None), real=(None, None))[kind]
                    res.append(order(f"{name} {i} reverse", g, y, st, up, *rng_, jit=bool(i % 2)))
                return res
            guard(out, name, base, go)
        def spline():
            m = spl()
            res = []
            for how, f, sp in (("forward", lambda v: m.forward(v, jnp.zeros(v.shape))[0], kxs), ("reverse", lambda v: m.reverse(v, jnp.zeros(v.shape))[0], kys)):
                x = grid(rng, "unit", tuple(sp))
                res.append(order(f"spline {i} {how} core", f, x, strict_gaps(x, (0, 1), 1e-5 if i % 2 else 1), True, 0, 1))
                x = np.unique(np.concatenate([x, grid(rng, "real", (0., 1.))]))
                x = x[np.concatenate([[True], np.diff(x) > 1e-13 * (1 + np.abs(x[1:]))])]
                res.append(order(f"spline {i} {how}", f, x, strict_gaps(x, (-1e12, 1e12), 1e-5 if i % 2 else 1), True, None, None, jit=True))
            return res
        guard(out, "spline", dict(ep=f"o{i}s", key=f"spline {i}"), spline)
        def mirror():
            res = []
            x = np.concatenate([np.abs(rng.normal(size=8)) * 4, [15.0, 40.0]])
            for nm, b in (("Tanh", bijx.Tanh()), ("Sinh small", bijx.Sinh()), ("CubicRational", bijx.CubicRational(loc=jnp.zeros(()), alpha=P(), beta=P())),
                          ("SinhConjugation", bijx.SinhConjugation(loc=jnp.zeros(()), alpha=P(), beta=jnp.zeros(()), mu=P(.5), nu=P(.5))),
                          ("CubicConjugation", bijx.CubicConjugation(loc=jnp.zeros(()), beta=jnp.zeros(()), a=P(), b=P())),
                          ("Ray", bijx.RayTransform(bijx.AffineLinear(scale=P(.2), shift=jnp.asarray(.5))))):
                v = jnp.asarray(x[:8] / 4 if nm == "Sinh small" else x)
                res.append(dict(ev="Mirror", key=f"mirror {nm} {i}", a=q(b.fwd(v)) if hasattr(b, "fwd") else q(b.forward(v, jnp.zeros(v.shape))[0]),
                                b=q(b.fwd(-v)) if hasattr(b, "fwd") else q(b.forward(-v, jnp.zeros(v.shape))[0]), sum=0))
            u = jnp.asarray(rng.uniform(0, 1, 8))
            for nm, b in (("Sigmoid", bijx.Sigmoid()), ("GaussianCDF", bijx.GaussianCDF(scale=P(), mean=jnp.zeros(())))):
                res.append(dict(ev="Mirror", key=f"mirror {nm} {i}", a=q(b.fwd(jnp.asarray(x))), b=q(b.fwd(-jnp.asarray(x))), sum=UNIT))
            b = bijx.BetaStretch(a=P())
            res.append(dict(ev="Mirror", key=f"mirror BetaStretch {i}", a=q(b.fwd(u)) + q(b.rev(u)), b=q(b.fwd(1 - u)) + q(b.rev(1 - u)), sum=UNIT))
            return res
        guard(out, "mirror", dict(ep=f"m{i}", key=f"mirror {i}"), mirror)
    return out


# ---------------------------------------------------------------------- roots
def roots(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(i)
        base = dict(ep=f"r{i}", key=f"roots {i}")
        def go():
            res = []
            n = 24
            r = rng.integers(-20, 21, n)
            p = rng.integers(-10, 11, n)
            qq = (p * p) // 4 + rng.integers(1, 30, n)
            sc = 10.0 ** rng.uniform(-60, 60, n)           # of the polynomial
            s = 10.0 ** rng.uniform(-40, 40, n)           # of the argument
            sg = rng.choice([-1, 1], n)
            # (x - r)(x^2 + p x + q) has exactly one real root
            for how, u, v in (("plain", np.ones(n), np.ones(n)), ("scaled", sc, np.ones(n)), ("stretched", np.ones(n), s), ("both", 10.0 ** rng.uniform(-30, 30, n), 10.0 ** rng.uniform(-30, 30, n))):
                c3, c2, c1, c0 = sg * u, sg * u * (p - r) * v, sg * u * (qq - p * r) * v ** 2, -sg * u * r * qq * v ** 3
                x = (jax.jit(analytic.solve_cubic) if i % 2 else analytic.solve_cubic)(*(jnp.asarray(c, float) for c in (c3, c2, c1, c0)))
                res.append(dict(ev="Root", key=f"cubic {how} {i}", x=q(np.asarray(x) / v), r=r.tolist(), tol=64))
            # a x + b x^3 = a r + b r^3, over the weights of the linear part
            a, b = 10.0 ** rng.uniform(-8, 8, n), 10.0 ** rng.uniform(-8, 8, n)
            x = analytic.solve_cubic(jnp.asarray(b), jnp.zeros(n), jnp.asarray(a), jnp.asarray(-(a * r + b * (r * 1.0) ** 3)))
            res.append(dict(ev="Root", key=f"cubic depressed {i}", x=q(x), r=r.tolist(), tol=256))
            # triple roots, where half of the digits are lost twice
            x = analytic.solve_cubic(jnp.ones(n), jnp.asarray(-3.0 * r), jnp.asarray(3.0 * r * r), jnp.asarray(-1.0 * r ** 3))
            res.append(dict(ev="Root", key=f"cubic triple {i}", x=q(x), r=r.tolist(), tol=1024))
            return res
        guard(out, "solve_cubic", base, go)
    def bounds():
        raw = jnp.asarray([-1e3, -30., -3., 0., 2., 30., 1e3])
        c = [bijx.CubicRational(loc=jnp.zeros(()), alpha=a, beta=a) for a in raw]
        v = lambda g: np.array([float(g(m)) for m in c])
        z = bijx.CubicRational(loc=jnp.zeros(()), alpha=jnp.zeros(()), beta=jnp.zeros(()))
        sig = analytic.SigmoidTransform(low=-.5, high=3., eps_low=.25, eps_high=.5)(raw)
        sp = analytic.SoftplusTransform(eps=.5)(raw)
        return [dict(ev="Within", key="alpha of CubicRational", v=q(v(lambda m: m.alpha.get_value())), lo=-UNIT, hi=8 * UNIT, d=q(z.alpha.get_value()), want=[0]),
                dict(ev="Within", key="beta of CubicRational", v=[min(a, 1 << 28) for a in q(v(lambda m: m.beta.get_value()))], lo=1, hi=1 << 28, d=[], want=[]),
                dict(ev="Within", key="SigmoidTransform", v=q(sig), lo=-UNIT // 4 - 1, hi=int(2.5 * UNIT) + 1, d=q(sig[3]), want=[0]),
                dict(ev="Within", key="SoftplusTransform", v=[min(a, 1 << 28) for a in q(sp)], lo=UNIT // 2, hi=1 << 28, d=[], want=[])]
    if 0 in idx:
        guard(out, "bounds", dict(ep="b", key="bounds"), bounds)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    cases = ctx.generate("MCMono", cfg="MCMono.cfg")
    if not ctx.quick:
        ctx.model("MCMono", "MCMonoDeep.cfg")
    fams = list(enumerate(c for c in cases if c["kind"] == "family"))
    num = 150 if ctx.quick else 1500
    sims = [(dm, ctx.generate("MCMono", cfg=c, extra=("-simulate", f"num={num}", "-depth", "12", "-seed", str(ctx.seed + 7)))) for dm, c in ((2, "MCMonoSim.cfg"), (0, "MCMonoSimZero.cfg"))]
    grps = []
    for dm, cs in sims:
        by = {}
        for c in cs:
            if c["kind"] == "spline":
                by.setdefault(len(c["xs"]), []).append(c)
        for n in sorted(by):
            g = by[n][: 16 if ctx.quick else 160]
            grps += [(len(grps) * 100 + j, dm, g[j:j + 8]) for j in range(0, len(g), 8)]
    no, nr = (4, 6) if ctx.quick else (60, 80)
    evs = ctx.pmap("checks.c18", "job", [("orders", list(range(j, no, 6))) for j in range(min(no, 6))] + [("chains", fams[j::6]) for j in range(6)]
                   + [("splines", grps[j::6]) for j in range(6)] + [("roots", list(range(j, nr, 2))) for j in range(2)])
    ctx.validate("MonoTrace", evs, cfg="Trace.cfg")
