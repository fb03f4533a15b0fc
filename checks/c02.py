"""C02: change of variables.  Every bijection of the catalogue is applied in
both directions; the recorded log-density changes are validated against the
Jacobian determinant of the applied map by spec/VolTrace.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np

import bijx
from harness import zoo
from harness.core import NANV, err, ints, q, shape

UN = 1 << 20


def one_dir(e, b, direction, x, rng, tol, key):
    """x: (n, *event) flat batch; returns events."""
    n = x.shape[0]
    fn = b.forward if direction == "F" else b.reverse
    ldi, ldi2 = jnp.asarray(rng.normal(size=n)), jnp.asarray(rng.normal(size=n) * 5 + 3)
    ev = tuple(x.shape[1:])
    perm = np.asarray([0] + [2, 1] + list(range(3, n)))

    def flat(v):
        z, _ = fn(v.reshape(ev), jnp.zeros(()), **e.kw)
        return z.reshape(-1)

    @jax.jit
    def everything(x, ldi, ldi2):
        y, ldo = fn(x, ldi, **e.kw)
        _, ldo2 = fn(x, ldi2, **e.kw)
        y2, ldo3 = fn(x[perm], jnp.where(jnp.arange(n) == 0, ldi, -ldi), **e.kw)
        return y, ldo, ldo2, y2, ldo3, jax.vmap(jax.jacfwd(flat))(x.reshape(n, -1))
    y, ldo, ldo2, y2, ldo3, J = everything(x, ldi, ldi2)
    J = np.asarray(J)
    if J.shape[-1] != J.shape[-2]:
        return [dict(ev="Error", what=e.name, err=f"dimension changes: {J.shape}", at="", key=key)], y
    slog = np.linalg.slogdet(J)[1] if J.size else np.zeros(n)
    out = [dict(ev="Vol", key=key + direction, ldi=q(ldi), ldo=q(ldo), ldi2=q(ldi2), ldo2=q(ldo2), slog=q(slog),
                batch=[n], ldshape=shape(ldo), tol=tol)]
    # other batch elements must not matter
    out.append(dict(ev="Pert", key=key + direction, x1=q(y[0], e.unit), x2=q(y2[0], e.unit), ld1=q(ldo[:1]), ld2=q(ldo3[:1]), tol=e.tol))
    return out, y


def tails(seed):
    """Elementwise maps over many orders of magnitude and close to the ends of
    their domains."""
    def ends(lo):
        return lambda rng, ev, n: (lambda t, s: np.where(s, t, 1 - t))(10.0 ** rng.uniform(lo, -.4, (n, *ev)), rng.random((n, *ev)) < .5)
    def wide(lo, hi):
        return lambda rng, ev, n: 10.0 ** rng.uniform(lo, hi, (n, *ev)) * rng.choice([-1, 1], (n, *ev))
    def flat(a, b):
        return lambda rng, ev, n: rng.uniform(a, b, (n, *ev))
    r = lambda *s: zoo.seeded(seed, "tails", *s)
    N = lambda s, *k: jnp.asarray(float(r(*k).normal() * s))
    P = lambda lo, hi, *k: jnp.asarray(float(r(*k).uniform(lo, hi)))
    E = []
    for name, mk, dom in [
        ("BetaStretch", lambda: bijx.BetaStretch(a=N(1, 0)), ends(-9)), ("BetaStretch2", lambda: bijx.BetaStretch(a=P(1.5, 3, 1), transform_a=None), ends(-7)),
        ("Tan", lambda: bijx.Tan(), ends(-9)), ("GaussianCDF", lambda: bijx.GaussianCDF(scale=P(0, 1, 2), mean=N(.5, 3)), flat(-5, 5)),
        ("Sigmoid", lambda: bijx.Sigmoid(), flat(-40, 20)), ("Tanh", lambda: bijx.Tanh(), flat(-9, 9)), ("Exponential", lambda: bijx.Exponential(), flat(-40, 40)),
        ("SoftPlus", lambda: bijx.SoftPlus(), flat(-30, 60)), ("Sinh", lambda: bijx.Sinh(), flat(-40, 40)),
        ("Power", lambda: bijx.Power(exponent=P(.3, 3, 4)), lambda rng, ev, n: np.abs(wide(-9, 6)(rng, ev, n))),
        ("PowerNeg", lambda: bijx.Power(exponent=P(-3, -.3, 5), transform_exponent=None), lambda rng, ev, n: np.abs(wide(-6, 6)(rng, ev, n))),
        ("CubicRational", lambda: bijx.CubicRational(loc=N(1, 6), alpha=N(2, 7), beta=N(2, 8)), wide(-6, 5)),
        ("SinhConjugation", lambda: bijx.SinhConjugation(loc=N(1, 9), alpha=N(1, 10), beta=N(1, 11), mu=N(1, 12), nu=N(1, 13)), wide(-6, 3)),
        ("CubicConjugation", lambda: bijx.CubicConjugation(loc=N(1, 14), beta=N(1, 15), a=N(1, 16), b=N(1, 17)), wide(-6, 2)),
        ("Affine", lambda: bijx.AffineLinear(scale=N(5, 18), shift=N(9, 19)), wide(-6, 6)),
    ]:
        for ev in ((), (3,)):
            E.append(zoo.Entry(f"Tail{name}{ev}", mk, ev, lambda rng, n, dom=dom, ev=ev: dom(rng, ev, n), tol=256, group="tails",
                               unit=1.0))
    return E


def observe(job):
    seed, todo = job
    cat = {e.name: e for e in zoo.catalogue(seed) + tails(seed)}
    out = []
    for name, n in todo:
        e = cat[name]
        rng = zoo.seeded(seed, "c02", name)
        try:
            b = e.make()
            x = jnp.asarray(e.dom(rng, n))
            tol = max(64, e.tol)
            evs, y = one_dir(e, b, "F", x, rng, tol, name + ":")
            out += evs
            evs, _ = one_dir(e, b, "R", y, rng, tol, name + ":")
            out += evs
            # several batch axes at once
            ld = jnp.zeros((2, 2))
            l1, l2 = jax.jit(lambda x: (b.forward(jnp.stack([x[:2], x[1:3]]), ld, **e.kw)[1],
                                        b.forward(x, jnp.zeros(n), **e.kw)[1]))(x)
            out.append(dict(ev="Pert", key=name + ":batch2", x1=[], x2=[], ld1=q(l1), ld2=q(np.asarray(l2)[[0, 1, 1, 2]]), tol=e.tol))
        except Exception as ex:  # noqa: BLE001
            out.append(err(name, ex, key=name))
    return out


def exact_layers(ctx):
    """Linear layers with dyadic scales: exact Jacobians and exact log 2 multiples."""
    rng = ctx.nprng("lin")
    evs = []
    for t in range(12 if ctx.quick else 60):
        n = [1, 2, 3, 4][t % 4]
        parts, names = [], []
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(0, 6))
            sc = jnp.asarray(2.0 ** rng.integers(-1, 2, size=n) * rng.choice([-1, 1], size=n))
            perm = rng.permutation(n)
            inv = np.argsort(perm)
            p = {
                0: lambda: bijx.AffineLinear(scale=sc, shift=jnp.ones(n), transform_scale=None),
                1: lambda: bijx.Scaling(scale=sc),
                2: lambda: bijx.MetaLayer(lambda x: x[..., perm], lambda x: x[..., inv]),
                3: lambda: bijx.Inverse(bijx.Scaling(scale=sc)),
                4: lambda: bijx.Shift(shift=jnp.ones(n)),
                5: lambda: bijx.Scaling(scale=jnp.asarray(-2.0)),
            }[k]()
            parts.append(p); names.append(k)
        b = bijx.Chain(*parts)
        for d, fn in (("F", b.forward), ("R", b.reverse)):
            key = f"exact{names} n={n} {d}"
            try:
                J = np.asarray(jax.jacfwd(lambda v: fn(v, jnp.zeros(()))[0])(jnp.zeros(n)))
                ld = float(fn(jnp.ones(n), jnp.zeros(()))[1]) / math.log(2)
                k = round(ld) if abs(ld - round(ld)) < 1e-9 else NANV
                evs.append(dict(ev="Lin", key=key, jac=[ints(r * 8) for r in J], sc=3, k=k))
            except Exception as ex:  # noqa: BLE001
                evs.append(err("exact", ex, key=key))
    return evs


def run(ctx):
    jobs = []
    for rep in range(1 if ctx.quick else 4):
        seed = ctx.seed + 1000 * rep
        names = [(e.name, 4 if ctx.quick else 8) for e in zoo.catalogue(seed) + tails(seed) if e.jac]
        jobs += [(seed, names[j::12]) for j in range(12)]
    evs = ctx.pmap("checks.c02", "observe", jobs) + exact_layers(ctx)
    ctx.validate("VolTrace", evs, cfg="Trace.cfg")
