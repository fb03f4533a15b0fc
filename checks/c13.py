"""C13: gauge field symmetries against spec/Gauge.tla."""
import jax
import jax.numpy as jnp
import numpy as np

from bijx.lattice import gauge as G
from bijx.lattice.general import roll_lattice
from harness.core import NANV, err, ints, q

PH = np.array([1, 1j, -1, -1j])


def elem(rng, n):
    """A unitary matrix with entries in {0, +-1, +-i}."""
    m = np.zeros((n, n), complex)
    m[np.arange(n), rng.permutation(n)] = PH[rng.integers(0, 4, n)]
    return m


def field(rng, shape, n):
    c = int(np.prod(shape))
    return np.stack([elem(rng, n) for _ in range(c)]).reshape(tuple(shape) + (n, n))


def gm(a):
    a = np.asarray(a)
    if a.ndim == 0:
        r = [float(a.real), float(a.imag)]
        return [int(round(v)) if v == v and abs(v - round(v)) < 1e-6 and abs(v) < 1e6 else NANV for v in r]
    return [gm(v) for v in a]


def links(a, d):
    a = np.asarray(a)
    return gm(a.reshape((-1,) + a.shape[d:]))


def apply(op, lat, gs):
    k, a, b = op
    if k == "flip":
        return G.flip_axis(lat, a)
    if k == "swap":
        return G.swap_axes(lat, a, b)
    if k == "rot":
        return G.rotate_lat(lat, a, b)
    if k == "roll":
        loc = tuple(b if i == a else 0 for i in range(lat.shape[-3]))[: a + 1]
        return roll_lattice(lat, loc) if b != -1 else roll_lattice(lat, tuple(-v for v in loc), invert=True)
    return G.apply_gauge_sym(lat, gs)


def walk(cases):
    out = []
    for ep, cs in cases:
        rng = np.random.default_rng(ep)
        L, n = tuple(cs["L"]), [1, 2, 2, 3][ep % 4]
        d = len(L)
        if n == 3 and np.prod(L) > 6:
            n = 2
        key = f"lattice={L} N={n} word={cs['word']}"
        base = dict(ep=ep, key=key)
        try:
            lat = jnp.asarray(field(rng, L + (d,), n))
            jit = ep % 3 == 0
            lp = lambda v: dict(logp=ints(jnp.atleast_1d(G.wilson_log_prob(v, 2.0 * n))), action=ints(jnp.atleast_1d(G.wilson_action(v, 2.0 * n))))
            out.append(dict(ev="Start", **base, L=list(L), U=links(lat, d), **lp(lat)))
            for op in cs["word"]:
                gs = field(rng, lat.shape[:d], n)
                fn = (lambda v, h, op=op: apply(op, v, h))
                lat = (jax.jit(fn) if jit else fn)(lat, jnp.asarray(gs))
                out.append(dict(ev="Op", **base, op=op, L=[int(v) for v in lat.shape[:d]], U=links(lat, d),
                                G=links(gs, d) if op[0] == "gauge" else [], **lp(lat)))
        except Exception as ex:  # noqa: BLE001
            out.append(err("walk", ex, **base))
    return out


def extras(seed):
    out = []
    for ep, (L, n, b) in enumerate([((2, 2), 2, ()), ((2, 3), 1, (3,)), ((3, 2), 2, (2, 2)), ((2, 2, 2), 2, (2,)), ((2, 2), 3, (1,)), ((3, 1, 2), 1, (2, 1)),
                                    ((3,), 2, (2,)), ((1, 2), 2, (3,)), ((2, 1, 2, 1), 2, (2,))]):
        rng = np.random.default_rng(seed + ep)
        d = len(L)
        base = dict(ep=f"batch{L}{n}{b}", key=f"batch {b} of lattice={L} N={n}")
        try:
            lat = field(rng, b + L + (d,), n)
            gs = field(rng, L, n)
            logp = G.wilson_log_prob(jnp.asarray(lat), 2.0 * n)
            V = np.asarray(G.apply_gauge_sym(jnp.asarray(lat), jnp.asarray(gs)))
            flat = lambda a: [links(v, d) for v in np.asarray(a).reshape((-1,) + L + (d, n, n))]
            out.append(dict(ev="Batch", **base, L=list(L), b=list(b), bshape=[int(s) for s in logp.shape], U=flat(lat), V=flat(V), G=links(gs, d), logp=ints(logp)))
            one = lat.reshape((-1,) + L + (d, n, n))[0]
            betas = [1, -3, 0, 5]
            out.append(dict(ev="Beta", **base, L=list(L), U=links(one, d), beta=betas, logp=[ints(G.wilson_log_prob(jnp.asarray(one), float(n * v)))[0] for v in betas]))
        except Exception as ex:  # noqa: BLE001
            out.append(err("batch", ex, **base))
    for ep, (L, n) in enumerate([((3, 4), 2), ((4, 2), 3), ((2, 3, 2), 3), ((5, 5), 1), ((2, 2, 2, 2), 2), ((6, 1), 4)]):
        rng = np.random.default_rng(seed + 77 + ep)
        d = len(L)
        def unitary(sh):
            a = rng.normal(size=sh + (n, n)) + 1j * rng.normal(size=sh + (n, n))
            return jnp.asarray(np.linalg.qr(a)[0])
        lat = unitary(L + (d,))
        g = unitary(L)
        dag = lambda m: m.conj().swapaxes(-1, -2)
        rots = lambda v, k: v if k == 0 else rots(G.rotate_lat(v, 0, 1), k - 1)
        pairs = {"gauge": (lambda v: G.apply_gauge_sym(v, g), lambda v: G.apply_gauge_sym(v, dag(g))),
                 "swap": (lambda v: G.swap_axes(v, 0, d - 1), lambda v: G.swap_axes(v, d - 1, 0)),
                 "flip": (lambda v: G.flip_axis(v, d - 1), lambda v: G.flip_axis(v, d - 1)),
                 "rotate": (lambda v: G.rotate_lat(v, 0, 1), lambda v: rots(v, 3)),
                 "roll": (lambda v: roll_lattice(v, (1, -2)), lambda v: roll_lattice(v, (1, -2), invert=True))}
        for name, (f, inv) in pairs.items():
            base = dict(ep=f"float{L}{n}{name}", key=f"{name} on lattice={L} U({n})")
            try:
                v = f(lat)
                out.append(dict(ev="Float", **base, before=q([G.wilson_log_prob(lat, 1.7), G.wilson_action(lat, 0.3)]),
                                after=q([G.wilson_log_prob(v, 1.7), G.wilson_action(v, 0.3)]), field=q(lat), back=q(inv(v))))
            except Exception as ex:  # noqa: BLE001
                out.append(err(name, ex, **base))
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    if ctx.quick:
        ctx.model("MCGauge")
    else:
        ctx.model("MCGauge", cfg="MCGaugeDeep.cfg", timeout=1500)
    cases = ctx.generate("MCGauge", cfg="MCGaugeSim.cfg", extra=("-simulate", f"num={40 if ctx.quick else 1200}", "-depth", "8", "-seed", str(ctx.seed)))
    seen, uniq = set(), []
    for c in cases:
        if str(c) not in seen:
            seen.add(str(c))
            uniq.append(c)
    todo = list(enumerate(uniq))[: 220 if ctx.quick else 4000]
    m = 8 if ctx.quick else 32
    evs = ctx.pmap("checks.c13", "job", [("walk", todo[j::m]) for j in range(m)] + [("extras", ctx.seed * 1000)])
    ctx.validate("GaugeTrace", evs, cfg="Trace.cfg", timeout=1500)
