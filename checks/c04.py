"""C04: masks and coupling layers against spec/Mask.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from harness.core import NANV, err, ints, shape

f = lambda v: jnp.asarray(v, dtype=float)


class IntNet(nnx.Module):
    """Integer-linear conditioning: parameters (scale, shift = W x) per entry."""

    def __init__(self, mask, sc, W, split, rank):
        n = mask.event_size
        self.ev, self.split, self.rank = tuple(mask.event_shape), split, rank
        if split:
            p = np.ravel_multi_index(mask.primary_indices, self.ev)
            s = np.ravel_multi_index(mask.secondary_indices, self.ev)
            self.sc, self.W = nnx.Param(f(sc[p])), nnx.Param(f(W[np.ix_(p, s)]))
        else:
            self.sc, self.W = nnx.Param(f(sc)), nnx.Param(f(W))
        self.n = n

    def __call__(self, x):
        if not self.split:
            x = x.reshape(x.shape[: x.ndim - len(self.ev)] + (-1,))
        t = jnp.einsum("km,...m->...k", self.W.get_value(), x)
        s = jnp.broadcast_to(self.sc.get_value(), t.shape)
        if self.split:
            return jnp.stack([s, t], -1) if self.rank == 0 else jnp.concatenate([s, t], -1)
        s, t = s.reshape(s.shape[:-1] + self.ev), t.reshape(t.shape[:-1] + self.ev)
        if self.rank == 0:
            return jnp.stack([s, t], -1)
        outer = s.shape[: s.ndim - self.rank]
        return jnp.concatenate([s.reshape(outer + (-1,)), t.reshape(outer + (-1,))], -1)


def layer(mask, sc, W, split, rank):
    ps = () if rank == 0 else ((mask.count_primary,) if split else tuple(mask.event_shape)[len(mask.event_shape) - rank:])
    rec = bijx.ModuleReconstructor(bijx.AffineLinear(scale=jnp.ones(ps), shift=jnp.zeros(ps), transform_scale=None))
    return bijx.GeneralCouplingLayer(IntNet(mask, sc, W, split, rank), mask, rec, bijection_event_rank=rank, split=split)


KINDS = ("int32", "float32", "float64", "complex64", "complex128")


def typed(m, x, kind, ec):
    """Split and merge the numbered array held in another dtype (complex kinds carry -x as imaginary part)."""
    xs = (x * (1 - 1j) if kind.startswith("complex") else x).astype(kind)
    p, s = m.split(xs, extra_channel_dims=ec)
    y = np.asarray(m.merge(p, s, extra_channel_dims=ec))
    return dict(kind=kind, cplx=kind.startswith("complex"), same=str(y.dtype) == str(xs.dtype) == str(p.dtype) == str(s.dtype),
                re=ints(y.real), im=ints(y.imag))


def coords(sh, k):
    return tuple(np.array([np.unravel_index(i, sh)[a] for i in k], dtype=int) for a in range(len(sh)))


def describe(m):
    return dict(bits=np.asarray(m.boolean_mask).astype(int).ravel().tolist(), nbits=np.asarray(m.masks[1]).astype(int).ravel().tolist(),
                pidx=np.stack([np.asarray(a) for a in m.primary_indices], -1).tolist(),
                sidx=np.stack([np.asarray(a) for a in m.secondary_indices], -1).tolist(),
                counts=[int(v) for v in m.counts], size=int(m.event_size), eshape=list(map(int, m.event_shape)))


def lg(ld):
    return [int(round(v)) if v == v and abs(v - round(v)) < 1e-6 else NANV for v in (np.asarray(ld, float) / math.log(2)).ravel().tolist()]


def row_constant(bits, rank):
    b = np.asarray(bits, bool)
    ax = tuple(range(b.ndim - rank, b.ndim))
    return rank <= b.ndim and bool(np.all(b.any(ax) == b.all(ax)))


def observe(cases):
    out = []
    for ep, cs, full in cases:
        sh, k = tuple(cs["shape"]), cs["built"]
        rng = np.random.default_rng(ep)
        key = f"shape={sh} entries={k} {cs['how']} flips={cs['flips']}"
        base = dict(ep=ep, key=key)
        try:
            if cs["how"] == "bool":
                bm = np.zeros(int(np.prod(sh)), bool); bm[k] = True
                m = bijx.BinaryMask.from_boolean_mask([bm.reshape(sh), jnp.asarray(bm.reshape(sh))][ep % 2])
            else:
                m = bijx.BinaryMask.from_indices(coords(sh, k), sh)
            out.append(dict(ev="Mask", **base, shape=list(sh), how=cs["how"], built=k, **describe(m)))
            for i in range(cs["flips"]):
                m = ~m if i == 0 else m.flip()
                out.append(dict(ev="Flip", **base, **describe(m)))
            for b, c in [((), ()), ((2, 1), (3,)), ((), (2, 3)), ((2,), ()), ((3,), (1,)), ((2,), (3, 1, 2))][:: 1 if full else 2 - ep % 2 * 3]:
                n = int(np.prod(b + sh + c))
                x = jnp.arange(1, n + 1).reshape(b + sh + c)
                p, s = m.split(x, extra_channel_dims=len(c))
                if b == () and ep % 2:
                    p, s = m.split(x, extra_channel_dims=len(c), batch_safe=False)
                y = m.merge(p, s, extra_channel_dims=len(c))
                ev = dict(ev="Split", **base, b=list(b), c=list(c), p=ints(p), pshape=shape(p), s=ints(s), sshape=shape(s),
                          m=ints(y), mshape=shape(y), mul=[], rmul=[], nmul=[], bij=True,
                          ip=ints(x[m.indices(extra_channel_dims=len(c))]), js=ints(x[m.indices(len(c), primary=False)]),
                          ip0=ints(x[m.indices(len(c), batch_safe=False)]) if b == () else [], typed=[typed(m, x, k, len(c)) for k in (KINDS if full else [KINDS[(ep + len(b) + 2 * len(c)) % 5]])])
                if not c:
                    (p2, s2), ld = m.forward(x, jnp.full(b, 2.0))
                    y2, ld2 = m.reverse((p2, s2), ld)
                    ev.update(mul=ints(m * x), rmul=ints(x * m), nmul=ints(~m * x),
                              bij=bool(np.array_equal(p2, p) and np.array_equal(s2, s) and np.array_equal(y2, x)
                                       and np.all(np.asarray(ld2) == 2.0) and shape(ld2) == list(b)))
                out.append(ev)
            if not (m.count_primary and m.count_secondary):
                continue
            n = m.event_size
            sc = rng.choice([1, -1, 2, -2], size=n)
            W = rng.integers(-2, 3, size=(n, n))
            variants = [(True, 0), (False, 0), (True, 1)]
            variants += [(False, r) for r in range(1, len(sh) + 1) if row_constant(m.boolean_mask, r)]
            if not full:
                variants = [variants[ep % 2], variants[2 + ep % (len(variants) - 2)]]
            for split, rank in variants:
                L = layer(m, sc, W, split, rank)
                for fwd in (True, False):
                    b = [(), (2,), (2, 1)][(ep + fwd) % 3]
                    nb = int(np.prod(b))
                    x = rng.integers(-5, 6, size=(nb, n)) * 4
                    ldi = rng.integers(-5, 6, size=nb)
                    fn = L.forward if fwd else L.reverse
                    y, ld = (jax.jit(fn) if (ep + rank) % 4 == 1 else fn)(f(x).reshape(b + sh), f(ldi).reshape(b) * math.log(2))
                    out.append(dict(ev="Couple", **base, variant=f"split={split} rank={rank}", fwd=fwd, sc=sc.tolist(), w=W.tolist(),
                                    x=(x * 1).tolist(), y=[ints(r) for r in np.asarray(y).reshape(nb, n)],
                                    ldi=ldi.tolist(), ldo=lg(ld), b=list(b), xshape=list(b + sh), yshape=shape(y), ldshape=shape(ld)))
        except Exception as ex:  # noqa: BLE001
            out.append(err("mask", ex, **base))
    return out


def checkers():
    out = []
    for sh in [(1,), (2,), (5,), (2, 2), (3, 2), (2, 3), (1, 4), (2, 2, 2), (3, 1, 2), (2, 3, 2, 2), (17, 16), (130, 2)]:
        for par in (False, True):
            key = f"checker {sh} {par}"
            try:
                m = bijx.checker_mask(sh, par)
                out.append(dict(ev="Checker", ep=key, key=key, shape=list(sh), parity=int(par), bits=np.asarray(m.boolean_mask).astype(int).ravel().tolist()))
            except Exception as ex:  # noqa: BLE001
                out.append(err("checker_mask", ex, ep=key, key=key))
    return out


def run(ctx):
    cases = ctx.generate("MCMask")
    rng = ctx.nprng("c04")
    if ctx.quick:
        cases = [cases[i] for i in rng.choice(len(cases), 130, replace=False)]
    todo = [(i, c, not ctx.quick) for i, c in enumerate(cases)]
    evs = ctx.pmap("checks.c04", "observe", [todo[j::16] for j in range(16)]) + checkers()
    ctx.validate("MaskTrace", evs, cfg="Trace.cfg")
