"""C12: symmetric convolutions against spec/Kernel.tla and spec/Lattice.tla."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

from bijx.nn import conv as C
from harness.core import err, ints, q, shape

KIND = {"d4": C.kernel_d4, "equidist": C.kernel_equidist}


def rows(a, n):
    a = np.asarray(a)
    return [ints(r) for r in a.reshape(n, -1)]


def guard(out, what, base, fn):
    try:
        out.append(dict(fn(), **base))
    except Exception as ex:  # noqa: BLE001
        out.append(err(what, ex, **base))


def gens(sh, rng):
    """Generator lists handed to gather_orbits, as functions on lattice arrays."""
    d = len(sh)
    fl = [lambda a, i=i: C.flip_lattice(a, i) for i in range(d)]
    rl = [lambda a, i=i: np.roll(a, 1, i) for i in range(d)]
    def perm(p):
        return lambda a: a.ravel()[p].reshape(a.shape)
    n = int(np.prod(sh))
    one = np.arange(n)
    i, j = rng.choice(n, 2, replace=n < 2)
    one[[i, j]] = one[[j, i]]
    out = [[], fl[:1], fl, rl[-1:], [perm(one)], [perm(rng.permutation(n))], [fl[-1], perm(one)]]
    cyc = np.arange(n)
    c = rng.permutation(n)[: max(1, n // 2)]
    cyc[c] = np.roll(c, 1)
    out.append([perm(cyc), perm(one)])
    if d > 1 and sh[0] == sh[1]:
        out.append([lambda a: C.rot_lattice_90(a, 0, 1)])
    return out


def tables(_):
    out = []
    rng = np.random.default_rng(5)
    for sh in [(a,) for a in range(1, 9)] + [(a, a) for a in range(1, 8)] + [(a, a, a) for a in range(1, 5)] + [(2,) * 4, (3,) * 4]:
        for kind, fn in KIND.items():
            base = dict(ep=f"orb{kind}{sh}", key=f"kernel_{kind} {sh}")
            def go():
                n, o = fn(sh)
                return dict(ev="Orbits", kind=kind, shape=list(sh), orbits=ints(o), oshape=shape(o), count=int(n), gens=[])
            guard(out, "orbits", base, go)
    for sh in [(2, 3), (3, 5), (4, 3), (1, 5), (2, 3, 4), (5, 3, 1)]:
        base = dict(ep=f"orbe{sh}", key=f"kernel_equidist {sh}")
        def go():
            n, o = C.kernel_equidist(sh)
            return dict(ev="Orbits", kind="equidist", shape=list(sh), orbits=ints(o), oshape=shape(o), count=int(n), gens=[])
        guard(out, "orbits", base, go)
    for sh in [(1,), (4,), (5,), (9,), (2, 3), (3, 3), (4, 4), (2, 2, 3), (3, 3, 2)]:
        for i, ops in enumerate(gens(sh, rng)):
            base = dict(ep=f"gen{sh}{i}", key=f"gather_orbits {sh} generators #{i}")
            def go():
                ar = np.arange(int(np.prod(sh))).reshape(sh)
                n, o = C.gather_orbits(sh, ops)
                return dict(ev="Orbits", kind="gens", shape=list(sh), orbits=ints(o), oshape=shape(o), count=int(n),
                            gens=[ints(op(ar)) for op in ops])
            guard(out, "gather_orbits", base, go)
    for sh in [(1,), (2,), (3,), (6,), (7,), (2, 2), (3, 3), (3, 4), (4, 5), (2, 3, 4), (3, 3, 3), (1, 3)]:
        base = dict(ep=f"uidx{sh}", key=f"unique_index_kernel {sh}")
        guard(out, "unique_index_kernel", base, lambda: dict(ev="UIdx", shape=list(sh), idx=ints(C.unique_index_kernel(sh))))
        if np.prod(sh) > 16:
            continue
        for flat, cen in itertools.product((True, False), (True, False)):
            base = dict(ep=f"cidx{sh}{flat}{cen}", key=f"conv_indices {sh} flat={flat} center={cen}")
            def go():
                a = np.asarray(C.conv_indices(sh, return_flat=flat, center=cen))
                return dict(ev="CIdx", shape=list(sh), flat=flat, center=cen, ishape=shape(a), idx=rows(a, len(sh)))
            guard(out, "conv_indices", base, go)
    for sh in [(1,), (4,), (5,), (3, 4), (4, 4), (3, 3), (2, 2, 2), (2, 3, 3), (3, 2, 3), (4, 4, 4)]:
        ar = np.arange(int(np.prod(sh))).reshape(sh)
        for ax in range(len(sh)):
            base = dict(ep=f"flip{sh}{ax}", key=f"flip_lattice {sh} axis {ax}")
            guard(out, "flip_lattice", base, lambda: dict(ev="Op", op="flip", shape=list(sh), axes=[ax], out=ints(C.flip_lattice(ar, ax))))
        for a1, a2 in itertools.permutations(range(len(sh)), 2):
            if sh[a1] == sh[a2]:
                base = dict(ep=f"rot{sh}{a1}{a2}", key=f"rot_lattice_90 {sh} axes {a1},{a2}")
                guard(out, "rot_lattice_90", base, lambda: dict(ev="Op", op="rot", shape=list(sh), axes=[a1, a2], out=ints(C.rot_lattice_90(ar, a1, a2))))
    return out


def surgery(_):
    out = []
    rng = np.random.default_rng(6)
    for sh, kind in [((3,), "d4"), ((3, 3), "d4"), ((4, 4), "d4"), ((5, 5), "equidist"), ((3, 4), "equidist"), ((3, 3, 3), "d4"), ((2, 2, 2), "equidist"), ((1, 1), "d4")]:
        for i, o in [(1, 1), (2, 3)]:
            base = dict(ep=f"fold{sh}{kind}{i}{o}", key=f"fold/unfold {kind} {sh} channels {i}->{o}")
            def go():
                n, orb = KIND[kind](sh)
                p = rng.integers(-9, 10, size=(n, i, o)).astype(float)
                k = rng.integers(-9, 10, size=sh + (i, o)).astype(float)
                u = np.asarray(C.unfold_kernel(jnp.asarray(p), orb))
                if u.shape != sh + (i, o):
                    raise ValueError(f"unfolded shape {u.shape}")
                r = C.fold_kernel(u, orb, n)
                return dict(ev="Fold", orbits=ints(orb), params=rows(p, n), unfolded=rows(u, int(np.prod(sh))), refolded=rows(r, n),
                            kernel=rows(k, int(np.prod(sh))), folded=[q(v, 1024) for v in np.asarray(C.fold_kernel(k, orb, n)).reshape(n, -1)])
            guard(out, "fold", base, go)
    pairs = [((a,), (b,)) for a in range(1, 7) for b in range(1, 8)]
    pairs += [((3, 3), (5, 5)), ((4, 4), (6, 6)), ((2, 3), (5, 3)), ((4, 3), (3, 4)), ((5, 4), (4, 5)), ((3, 3), 6), ((2, 2), 5), ((5, 5), 3),
              ((4, 4), 4), ((2, 2, 2), (3, 4, 2)), ((3, 4, 5), (5, 6, 3)), ((3, 2, 4), 5)]
    for old, new in pairs:
        base = dict(ep=f"resize{old}{new}", key=f"resize_kernel_weights {old} -> {new}")
        def go():
            k = rng.integers(1, 30, size=old + (2, 1)).astype(float) * 16
            r = np.asarray(C.resize_kernel_weights(jnp.asarray(k) if len(old) % 2 else k, new))
            nw = new if isinstance(new, tuple) else (new,) * len(old)
            ok = r.shape[:-2] == nw and r.shape[-2:] == (2, 1)
            return dict(ev="Resize", old=list(old), new=list(nw), oshape=list(r.shape[:-2]), kernel=rows(k, int(np.prod(old))),
                        out=rows(r, int(np.prod(nw))) if ok else [])
        guard(out, "resize_kernel_weights", base, go)
    return out


def layer(ksh, kind, nin, nout, bias, rng, **kw):
    c = C.ConvSym(nin, nout, kernel_size=ksh if len(ksh) > 1 or kw.pop("tup", True) else ksh[0], orbit_function=KIND.get(kind), use_bias=bias,
                  rngs=nnx.Rngs(0), **kw)
    c.kernel_params.set_value(jnp.asarray(rng.integers(-4, 5, size=c.kernel_params.shape), float))
    if bias:
        c.bias.set_value(jnp.asarray(rng.integers(-4, 5, size=c.bias.shape), float))
    return c


CONVS = [((3,), (5,)), ((3,), (2,)), ((5,), (5,)), ((4,), (4,)), ((2,), (2,)), ((2,), (6,)), ((1,), (3,)),
         ((3, 3), (4, 4)), ((3, 3), (3, 5)), ((4, 4), (4, 4)), ((2, 2), (3, 4)), ((5, 5), (6, 5)), ((3, 3, 3), (3, 4, 3)), ((2, 2, 2), (2, 2, 2))]


def convs(_):
    out = []
    rng = np.random.default_rng(7)
    for n, (ksh, L) in enumerate(CONVS):
        for kind in ("d4", "equidist", "none"):
            for nin, nout, bias, b in [(1, 1, False, ()), (2, 3, True, (2,)), (3, 1, True, (2, 1))]:
                if len(L) == 3 and nin > 1 or kind == "none" and nin == 3:
                    continue
                base = dict(ep=f"conv{ksh}{L}{kind}{nin}", key=f"ConvSym {kind} kernel {ksh} on {L} channels {nin}->{nout} batch {b}")
                def go():
                    c = layer(ksh, kind, nin, nout, bias, rng)
                    nk, ns, nb = int(np.prod(ksh)), int(np.prod(L)), int(np.prod(b))
                    orb = np.arange(nk) if c.orbits is None else np.asarray(c.orbits)
                    x = rng.integers(-6, 7, size=b + L + (nin,))
                    y = (jax.jit(lambda v: c(v)) if n % 2 else c)(jnp.asarray(x, float))
                    good = y.shape == b + L + (nout,)
                    ch = lambda a, m: [[ints(r) for r in np.moveaxis(v, -1, 0)] for v in np.asarray(a).reshape(nb, ns, m)]
                    return dict(ev="Conv", L=list(L), ksh=list(ksh), nin=nin, nout=nout, orbits=ints(orb),
                                params=rows(c.kernel_params.get_value(), c.kernel_params.shape[0]), K=rows(c.kernel.get_value(), nk),
                                bias=ints(c.bias.get_value()) if bias else [0] * nout, x=ch(x, nin), y=ch(y, nout) if good else [],
                                yshape=shape(y), wshape=list(b + L + (nout,)))
                guard(out, "ConvSym", base, go)
    return out


def equi(cases):
    out = []
    for i, cs in cases:
        L = tuple(cs["L"])
        rng = np.random.default_rng(i)
        kind = ["d4", "equidist"][i % 2]
        cubic = len(set(L)) == 1
        ks = [(k,) * len(L) for k in (1, 3, 5) if len(L) < 3 or k < 5] + ([L] if cubic else [])
        ksh = ks[i % len(ks)]
        deep = i % 4 == 3
        base = dict(ep=f"equi{i}", key=f"equivariance {kind} {'two layers' if deep else ''} kernel {ksh} on {L} under {cs['word']}")
        def go():
            c = layer(ksh, kind, 2, 2, True, rng)
            if deep:
                c2 = C.ConvSym(2, 2, kernel_size=ksh, orbit_function=KIND[kind], rngs=nnx.Rngs(i))
                c1, c = c, lambda v: c2(jnp.tanh(c1(v) / 8))
            n = int(np.prod(L))
            x = rng.integers(-6, 7, size=(n, 2))
            gx = np.empty_like(x)
            gx[np.asarray(cs["perm"])] = x
            f = lambda v: np.asarray(c(jnp.asarray(v, float).reshape(L + (2,)))).reshape(n, 2)
            return dict(ev="Equi", L=list(L), p=cs["p"], s=cs["s"], t=cs["t"], x=[ints(v) for v in x.T], gx=[ints(v) for v in gx.T],
                        y=[q(v) for v in f(x).T], gy=[q(v) for v in f(gx).T])
        guard(out, "equivariance", base, go)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCKernel")
    cases = ctx.generate("MCLattice")
    rng = ctx.nprng("c12")
    k = 320 if ctx.quick else 4000
    todo = [(i, cases[j]) for i, j in enumerate(rng.permutation(len(cases))[:k])]
    m = 12 if ctx.quick else 48
    evs = ctx.pmap("checks.c12", "job", [("convs", 0), ("tables", 0), ("surgery", 0)] + [("equi", todo[j::m]) for j in range(m)])
    ctx.validate("KernelTrace", evs, cfg="Trace.cfg")
