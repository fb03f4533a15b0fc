"""C11: Fourier bookkeeping, conversions and spectral scaling against spec/Modes.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx.fourier import FFTRep, FourierData, FourierMeta, fft_momenta
from harness.core import NANV, err, ints, q, shape

U16 = 65536
LAY = {"none": ((), ()), "batch": ((2,), ()), "channel": ((), (2,)), "both": ((2, 1), (2, 1))}


def half(n):
    return tuple(n[:-1]) + (n[-1] // 2 + 1,)


def meta_event(n, base, cd=0):
    m = FourierMeta.create(tuple(n), cd)
    lin = lambda mask: np.flatnonzero(np.asarray(mask).ravel()).tolist()
    rows = lambda a: [[int(v) for v in r] for r in np.asarray(a).reshape(-1, len(n))]
    return m, dict(ev="Meta", **base, n=list(n), kept=lin(m.mr), imag=lin(m.mi), copyfrom=rows(m.copy_from), copyto=rows(m.copy_to),
                   haveimag=ints(np.asarray(m.have_imag).astype(int)), ksred=ints(m.ks_reduced), uidc=ints(m.unique_idc), unfold=ints(m.unique_unfold))


def copies(a, nb, ne, nc):
    """One list per copy: batch axes and channel axes to the front."""
    a = np.asarray(a)
    B, C = a.shape[:nb], a.shape[a.ndim - nc:]
    return np.moveaxis(a.reshape(int(np.prod(B)), -1, int(np.prod(C))), 2, 1).reshape(int(np.prod(B) * np.prod(C)), -1)


def cq(a, f):
    a = np.asarray(a) * f
    return [q(r, U16) for r in a]


def observe(cases):
    out = []
    for ep, cs in cases:
        n = tuple(cs["n"])
        b, c = LAY[cs["layout"]]
        N = int(np.prod(n))
        rng = np.random.default_rng(ep)
        key = f"lattice={n} layout={cs['layout']} word={'>'.join(cs['word'])}"
        base = dict(ep=ep, key=key)
        try:
            m, ev = meta_event(n, base, len(c))
            out.append(ev)
            x = rng.integers(-9, 10, size=b + n + c)
            out.append(dict(ev="Field", **base, f=[[int(v) for v in r] for r in copies(x, len(b), 1, len(c))]))
            xf = jnp.asarray(x, jnp.float32 if ep % 5 == 4 else float)

            def log(rep, data, tag, ld=True):
                k = {"real_space": len(n), "rfft": len(n)}.get(rep, 1)
                ok = np.shape(data) and np.ndim(data) == len(b) + k + len(c)
                d = copies(data, len(b), k, len(c)) if ok else np.zeros((0, 0))
                out.append(dict(ev="Conv", **base, rep=rep, tag=tag, b=list(b), c=list(c), shape=shape(data), ld=bool(ld),
                                data=cq(d, 1.0 if rep == "real_space" else math.sqrt(N))))
            step = lambda d, r: d.to(r)
            if ep % 3 == 1:
                step = lambda d, r: d.replace(data=jax.jit(lambda a: d.replace(data=a).to(r).data)(d.data), rep=r)
            d = FourierData.from_real(xf, n, to=FFTRep[cs["word"][0]] if ep % 2 else None, channel_dim=len(c))
            for w in cs["word"]:
                d = step(d, FFTRep[w])
                log(w, d.data, d.rep.name)
            # the bijection form of the same conversion
            w = cs["word"][0]
            T = bijx.ToFourierData(n, rep=FFTRep[w], channel_dim=len(c), unpack=bool(ep % 2))
            ldi = jnp.asarray(rng.integers(-5, 5, size=b), float)
            y, ld = T.forward(xf, ldi)
            log(w, y if ep % 2 else y.data, w if ep % 2 else y.rep.name, np.array_equal(ld, ldi))
            r, ld = T.reverse(y, ldi)
            log("real_space", r, "real_space", np.array_equal(ld, ldi))
        except Exception as ex:  # noqa: BLE001
            out.append(err("conversion", ex, **base))
    return out


def more_metas(_):
    out = []
    for n in [(7,), (9,), (16,), (7, 6), (6, 7), (9, 4), (5, 5, 4), (7, 7), (2, 2, 2, 2), (1, 1, 8), (3, 4, 5)]:
        base = dict(ep=f"meta{n}", key=f"meta {n}")
        try:
            out.append(meta_event(n, base)[1])
        except Exception as ex:  # noqa: BLE001
            out.append(err("FourierMeta", ex, **base))
    return out


def grids(shapes):
    out = []
    for n in shapes:
        for red in (True, False):
            for kind in ("unit", "continuum", "lattice"):
                base = dict(ep=f"grid{n}{red}{kind}", key=f"fft_momenta {n} reduced={red} {kind}")
                try:
                    k = np.asarray(fft_momenta(n, reduced=red, lattice=kind == "lattice", unit=kind == "unit"))
                    f = {"unit": 1, "continuum": 120 / (2 * math.pi), "lattice": 2 ** 14}[kind]
                    kk = k.reshape(-1, len(n)) * f
                    out.append(dict(ev="Grid", **base, n=list(n), reduced=red, kind=kind, shape=shape(k),
                                    k=[[int(round(v)) if (kind == "lattice" or abs(v - round(v)) < 1e-4) else NANV for v in r] for r in kk.tolist()]))
                except Exception as ex:  # noqa: BLE001
                    out.append(err("fft_momenta", ex, **base))
    return out


def symmetric(n, rng, vals):
    s = np.zeros(half(n))
    for k in np.ndindex(s.shape):
        kc = tuple(-np.array(k) % np.array(n))
        s[k] = s[kc] if kc < k and kc[-1] < s.shape[-1] else rng.choice(vals)
    return s


def scalings(shapes):
    out = []
    for i, n in enumerate(shapes):
        rng = np.random.default_rng(1000 + sum(n) * 7 + len(n))
        ax = lambda b: tuple(range(len(b), len(b) + len(n)))
        for lay, (b, c) in LAY.items():
            for fwd in (True, False):
                base = dict(ep=f"scale{n}{lay}{fwd}", key=f"SpectrumScaling {n} {lay} forward={fwd}")
                try:
                    s = symmetric(n, rng, [0.5, 1, 2, 4, -2, -1])
                    L = bijx.SpectrumScaling(nnx.Param(jnp.asarray(s)) if i % 2 else jnp.asarray(s), channel_dim=len(c))
                    x = rng.integers(-5, 6, size=b + n + c)
                    ldi = np.asarray(rng.integers(-5, 6, size=b), float) * math.log(2)
                    fn = L.forward if fwd else L.reverse
                    y, ld = (jax.jit(fn) if i % 3 == 0 else fn)(jnp.asarray(x, float), jnp.asarray(ldi))
                    Y = np.fft.rfftn(np.asarray(y), n, ax(b))
                    dl = np.asarray((np.asarray(ld) - ldi) / math.log(2)).ravel()
                    out.append(dict(ev="Scale", **base, n=list(n), fwd=fwd, s2=[int(2 * v) for v in s.ravel()],
                                    lg=[int(round(math.log2(abs(v)))) for v in s.ravel()], chan=int(np.prod(c)),
                                    x=[[int(v) for v in r] for r in copies(x, len(b), 1, len(c))], y=cq(copies(Y, len(b), 1, len(c)), 1.0),
                                    dld=ints(np.where(np.abs(dl - np.round(dl)) < 1e-6, np.round(dl), np.nan)) if np.shape(ld) == b else [],
                                    xshape=list(b + n + c) + list(b), yshape=shape(y) + shape(ld)))
                except Exception as ex:  # noqa: BLE001
                    out.append(err("SpectrumScaling", ex, **base))
        if int(np.prod(n)) > 16:
            continue
        for finite in (True, False):
            for hf in (True, False):
                for pre in (True, False):
                    m2 = [0.25, 1.0, 2.5][(i + finite + hf) % 3]
                    b, c = LAY[["none", "batch", "channel", "both"][(i + pre + 2 * hf) % 4]]
                    base = dict(ep=f"free{n}{finite}{hf}{pre}", key=f"FreeTheoryScaling {n} finite_size={finite} half={hf} precompute={pre}")
                    try:
                        L = bijx.FreeTheoryScaling(nnx.Param(jnp.asarray(m2)) if (i + pre) % 3 == 2 else m2, n, channel_dim=len(c),
                                                   finite_size=finite, precompute_spectrum=pre, half=hf)
                        x = rng.integers(-3, 4, size=b + n + c)
                        y, ld = L.forward(jnp.asarray(x, float), jnp.zeros(b))
                        Y = np.fft.rfftn(np.asarray(y), n, ax(b))
                        out.append(dict(ev="Free", **base, n=list(n), finite=finite, half=hf, m2=int(m2 * 4096), s=q(L.scaling, 16384),
                                        x=[[int(v) for v in r] for r in copies(x, len(b), 1, len(c))],
                                        y=[q(r, 256) for r in copies(Y, len(b), 1, len(c))]))
                    except Exception as ex:  # noqa: BLE001
                        out.append(err("FreeTheoryScaling", ex, **base))
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    cases = ctx.generate("MCModes")
    shapes = sorted({tuple(c["n"]) for c in cases}, key=lambda s: (len(s), s))
    rng = ctx.nprng("c11")
    if ctx.quick:
        per = {}
        for i in rng.permutation(len(cases)):
            per.setdefault(tuple(cases[i]["n"]), []).append(cases[i])
        cases = [c for s in shapes for c in per[s][:3]]
    else:
        cases = [cases[i] for i in rng.permutation(len(cases))[:6000]]
    todo = list(enumerate(cases))
    k = 16 if ctx.quick else 64
    jobs = [("observe", todo[j::k]) for j in range(k)] + [("more_metas", 0)]
    jobs += [("grids", shapes[j::4]) for j in range(4)] + [("scalings", shapes[j::8]) for j in range(8)]
    evs = ctx.pmap("checks.c11", "job", jobs)
    ctx.validate("ModesTrace", evs, cfg="Trace.cfg")
