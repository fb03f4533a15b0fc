"""C01: every bijection undoes itself.  Words over the ways of running a
bijection come from spec/Orbit.tla; the recorded orbits of the catalogue's
bijections are validated by spec/OrbitTrace.tla."""
import jax.numpy as jnp
import numpy as np

import bijx
from harness import zoo
from harness.core import err, q, shape

BATCHES = [(), (3,), (2, 2), (1,), (4,), (1, 3), (2, 1, 2)]


def draw(e, rng, batch):
    n = int(np.prod(batch, dtype=int))
    return jnp.asarray(e.dom(rng, n)).reshape(batch + tuple(e.event))


def run_op(b, op, x, ld, kw):
    return {
        "F": lambda: b.forward(x, ld, **kw),
        "C": lambda: b(x, ld, **kw),
        "R": lambda: b.reverse(x, ld, **kw),
        "IF": lambda: b.invert().forward(x, ld, **kw),
        "IR": lambda: b.invert().reverse(x, ld, **kw),
        "IIF": lambda: b.invert().invert().forward(x, ld, **kw),
        "IIR": lambda: b.invert().invert().reverse(x, ld, **kw),
        "WF": lambda: bijx.Inverse(b).forward(x, ld, **kw),
        "WR": lambda: bijx.Inverse(b).reverse(x, ld, **kw),
        "WWF": lambda: bijx.Inverse(bijx.Inverse(b)).forward(x, ld, **kw),
    }[op]()


def orbit(ep, e, b, word, batch, rng):
    key = f"{e.name} batch={batch} word={'.'.join(word)}"
    x = draw(e, rng, batch)
    ld = jnp.asarray(rng.normal(size=batch) * 3)
    evs = [dict(ev="Begin", ep=ep, key=key, hi=3 if e.endo else 1, event=list(e.event),
                oevent=list(e.event if e.out_event is None else e.out_event), batch=list(batch),
                tol=e.tol, dtype=str(x.dtype), x=q(x, e.unit), ld=q(ld), xshape=shape(x), ldshape=shape(ld))]
    try:
        for op in word:
            x, ld = run_op(b, op, x, ld, e.kw)
            evs.append(dict(ev="Step", ep=ep, key=key, op=op, x=q(x, e.unit), ld=q(ld),
                            xshape=shape(x), ldshape=shape(ld), dtype=str(x.dtype)))
    except Exception as ex:  # noqa: BLE001
        evs.append(err(e.name, ex, ep=ep, key=key))
    return evs


# Points far out in both tails, where rounding still leaves the round trip well
# determined (relative condition of the inverse below about 1e9).
FAR = {
    "Sigmoid": [20., 15., -15., -40., -500., 1e-7], "Tanh": [8., -8., 3., 1e-9], "Exponential": [300., -300., -40., 20.],
    "SoftPlus": [-300., -30., 40., 1000., 1e6, -17., 17.], "Sinh": [300., -300., 20., -20., 1e-6],
    "Tan": [1e-6, 1 - 1e-6, .5 + 1e-7], "GaussianCDF": [4., -4., -15.], "Power": [1e-6, 1e6, 1e-30, 1e30], "PowerNeg": [1e-6, 1e6],
    "AffineExp": [1e6, -1e6, 1e30], "AffineNeg": [1e6, -1e6], "Scaling": [1e6, -1e-30, 1e200], "Shift": [1e6, -1e6],
    "BetaStretch": [1e-4, 1 - 1e-4], "CubicRational": [30., -30., 1e3, -1e3, 1e7, -1e7],
    "SinhConjugation": [14., -14., 16., -16., 40., -40., 300., -300.], "CubicConjugation": [30., -30., 1e3, -1e3, 1e6],
    "RayAffine": [1e3, -1e3], "RaySoftPlus": [30., 1e3],
    "Spline": [-1e3, 1e6, 1e-7, 1 - 1e-7, -1e-7, 1 + 1e-7],
}


def pow2(v):
    v = abs(float(v))
    return 2.0 ** (22 - int(np.floor(np.log2(v)))) if 1e-280 < v < 1e280 else float(1 << 20)


def far(job):
    """Round trips from single points far out, each position in its own unit."""
    seed, names = job
    cat = {e.name: e for e in zoo.scalar_entries(seed)}
    out = []
    for name in names:
        e = cat[name]
        for x0 in FAR["Spline" if e.group.startswith("Spline") else e.group]:
            for w in (("F", "R"), ("IR", "IF", "C", "WF")):
                ep = key = f"far {name} x={x0} {'.'.join(w)}"
                evs = []
                try:
                    b = e.make()
                    x, ld = jnp.full((1, *e.event), x0), jnp.full((1,), .5)
                    us = [pow2(x0), None]
                    pos = 0
                    evs.append(dict(ev="Begin", ep=ep, key=key, hi=3, event=list(e.event), oevent=list(e.event), batch=[1], tol=32,
                                    dtype=str(x.dtype), x=q(x, us[0]), ld=q(ld, 1 << 17), xshape=shape(x), ldshape=shape(ld)))
                    for op in w:
                        x, ld = run_op(b, op, x, ld, e.kw)
                        pos = 1 - pos
                        if us[pos] is None:
                            us[pos] = pow2(jnp.max(jnp.abs(x)))
                        evs.append(dict(ev="Step", ep=ep, key=key, op=op, x=q(x, us[pos]), ld=q(ld, 1 << 17), xshape=shape(x), ldshape=shape(ld),
                                        dtype=str(x.dtype)))
                except Exception as ex:  # noqa: BLE001
                    evs.append(err(name, ex, ep=ep, key=key))
                out += evs
    return out


def observe(job):
    if job[0] == "far":
        return far(job[1:])
    seed, todo = job
    cat = {e.name: e for e in zoo.catalogue(seed)}
    out = []
    for ep, name, words, batch in todo:
        e = cat[name]
        try:
            b = e.make()
        except Exception as ex:  # noqa: BLE001
            out.append(err(name, ex, ep=ep, key=name))
            continue
        for k, w in enumerate(words):
            out += orbit(f"{ep}.{k}", e, b, w, batch, zoo.seeded(seed, "c01", name, k))
    return out


def run(ctx):
    cases = ctx.generate("Orbit")
    words = {h: [c["word"] for c in cases if c["hi"] == h] for h in (1, 3)}
    todo = []
    for rep in range(1 if ctx.quick else 4):
        seed = ctx.seed + 1000 * rep
        rng = ctx.nprng("c01", rep)
        for i, e in enumerate(zoo.catalogue(seed)):
            ws = words[3 if e.endo else 1]
            n = 3 if ctx.quick else 10
            pick = [ws[j] for j in rng.choice(len(ws), n, replace=False)]
            batch = BATCHES[(i + rep) % len(BATCHES)]
            todo.append((seed, (f"{rep}.{i}", e.name, pick, batch)))
    jobs = []
    for seed in {s for s, _ in todo}:
        mine = [t for s, t in todo if s == seed]
        k = 6 if ctx.quick else 12
        jobs += [(seed, mine[j::k]) for j in range(k)]
    names = [e.name for e in zoo.scalar_entries(ctx.seed) if not ctx.quick or e.name.endswith(("[|scalar]", "[3|full]"))]
    jobs += [("far", ctx.seed, names[j::4]) for j in range(4)]
    ctx.validate("OrbitTrace", ctx.pmap("checks.c01", "observe", jobs), cfg="Trace.cfg")
