"""C03: programs of bijections.  TLC generates programs and judges the real
results with the exact meaning in spec/Compose.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from harness.core import NANV, err, ints, shape
from harness.zoo import stack_of

S = 65536
A = [(2, -1), (-2, 2), (1, -2)]
B = [(1, -3), (0, 2), (-2, 5)]
C = [2, -1, -2]
T = [1, -2, 3]
f = lambda v: jnp.asarray(v, dtype=float)


class KwLayer(bijx.Bijection):
    """A user-defined bijection steered by keyword arguments."""

    def forward(self, x, ld, c=0.0, g=0.0, **kw):
        return x * 2.0 ** g + c, ld - 2 * g * math.log(2)

    def reverse(self, x, ld, c=0.0, g=0.0, **kw):
        return (x - c) / 2.0 ** g, ld + 2 * g * math.log(2)


class LinNet(nnx.Module):
    """Parameters (scale, shift) = (s, t * passive)."""

    def __init__(self, s, t, split):
        self.s, self.t = nnx.Param(f(s)), nnx.Param(f(t))
        self.split = split

    def __call__(self, x):
        if not self.split:
            x = jnp.flip(x, -1)
        sh = x * self.t.get_value()
        return jnp.stack([jnp.broadcast_to(self.s.get_value(), sh.shape), sh], -1)


def flip(x):
    return jnp.flip(x, -1)


def leaf(k, i):
    i -= 1
    if k == "aff":
        return bijx.AffineLinear(scale=f(A[i]), shift=f(B[i]), transform_scale=None)
    if k == "sc":
        return bijx.Scaling(scale=f(C[i]))
    if k == "sh":
        return bijx.Shift(shift=f(B[i]))
    if k == "rev":
        return bijx.MetaLayer(flip, flip)
    if k == "kw":
        return KwLayer()
    if k == "id":
        return bijx.Identity
    rec = bijx.ModuleReconstructor(bijx.AffineLinear(scale=f(1), shift=f(0), transform_scale=None))
    split = k == "cpl"
    mask = bijx.BinaryMask.from_boolean_mask(np.array([split, not split]))
    return bijx.GeneralCouplingLayer(LinNet(C[i], T[i], split), mask, rec, split=split)


def build(p, d=0):
    k, ps = p["k"], p["ps"]
    if k == "chain":
        return bijx.Chain(*[build(c, d) for c in ps])
    if k == "scan":
        return bijx.ScanChain(stack_of(lambda j: build(ps[0], d + j), list(range(p["n"]))))
    if not ps:
        return leaf(k, (p["i"] - 1 + d) % 3 + 1)
    b = build(ps[0], d)
    return {"inv": lambda: bijx.Inverse(b), "invm": lambda: b.invert(),
            "cit": lambda: bijx.CondInverse(b, True), "cif": lambda: bijx.CondInverse(b, False),
            "citi": lambda: bijx.CondInverse(b, True).invert(), "fro": lambda: bijx.Frozen(b),
            "par": lambda: bijx.Partial(b, c=2.0, g=1.0)}[k]()


def on_spine(p):
    """kinds on the way to the chain that receives arg_list"""
    out = []
    while p["k"] in ("inv", "invm", "cit", "cif", "citi", "fro", "par"):
        out.append(p["k"])
        p = p["ps"][0]
    return out


def lg(ld):
    out = []
    for v in (np.asarray(ld) / math.log(2)).ravel().tolist():
        out.append(int(round(v)) if v == v and abs(v - round(v)) < 1e-6 else NANV)
    return out


def flagged(c, g):
    return dict(c=0 if c is None else c, g=0 if g is None else g, hc=c is not None, hg=g is not None)


def observe(job):
    out = []
    for case, mode, fwd, kwsel, batch, seed in job:
        prog = case["prog"]
        rng = np.random.default_rng(seed)
        key = f"{' '.join(case['word'])} fwd={fwd} mode={mode} kw={kwsel} batch={batch}"
        try:
            b = build(prog)
            c, g = [(None, None), (3, None), (None, 1), (3, 1)][kwsel % 4]
            kw = {k: float(v) for k, v in (("c", c), ("g", g)) if v is not None}
            args, targs = None, []
            if case["spine"] and kwsel >= 4:
                args = []
                for _ in range(case["spine"]):
                    ac = int(rng.integers(-3, 4)) if c is None and rng.random() < .7 else None
                    ag = int(rng.integers(0, 3)) if g is None and rng.random() < .7 else None
                    if "par" in on_spine(prog):
                        ac = ag = None
                    args.append({k: float(v) for k, v in (("c", ac), ("g", ag)) if v is not None})
                    targs.append(flagged(ac, ag))
            n = int(np.prod(batch, dtype=int))
            xs = rng.integers(-6, 7, size=(n, 2))
            lds = rng.integers(-9, 10, size=n)
            x = f(xs).reshape(batch + (2,))
            ld = (f(lds) * math.log(2)).reshape(batch)
            fn = b.forward if fwd else b.reverse
            call = (lambda x, ld: fn(x, ld, **kw)) if args is None else (lambda x, ld: fn(x, ld, arg_list=args, **kw))
            if mode == "jit":
                call = jax.jit(call)
            y, ldo = call(x, ld)
            out.append(dict(ev="Run", key=key, prog=prog, fwd=bool(fwd), kw=flagged(c, g), args=targs,
                            xs=[[int(v) * S for v in r] for r in xs], lds=[int(v) for v in lds],
                            ys=[ints(r * S) for r in np.asarray(y).reshape(n, 2)], ldos=lg(ldo),
                            xshape=shape(x), yshape=shape(y), ldshape=shape(ldo)))
        except Exception as ex:  # noqa: BLE001
            out.append(err("program", ex, key=key))
    return out


def run(ctx):
    small = ctx.generate("Compose")
    deep = ctx.generate("Compose", cfg="ComposeDeep.cfg",
                        extra=("-simulate", f"num={200 if ctx.quick else 400}", "-depth", "11", "-seed", str(ctx.seed)))
    rng = ctx.nprng("c03")
    deep = [c for c in deep if len(c["word"]) > 4]
    pick = [small[i] for i in rng.choice(len(small), 220 if ctx.quick else 2500, replace=False)]
    pick += [c for c in small if len(c["word"]) <= 2]
    pick += [deep[i] for i in rng.choice(len(deep), min(len(deep), 100 if ctx.quick else 800), replace=False)]
    todo = []
    for i, c in enumerate(pick):
        kwsel = int(rng.integers(0, 8))
        for fwd in (True, False):
            todo.append((c, "jit" if i % 4 == 1 else "eager", fwd, kwsel, [(), (3,), (2, 1)][i % 3], int(rng.integers(1 << 30))))
    ctx.validate("ComposeTrace", ctx.pmap("checks.c03", "observe", [todo[j::16] for j in range(16)]), cfg="Trace.cfg")
