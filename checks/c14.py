"""C14: scalar lattice observables against spec/Observables.tla."""
import jax
import jax.numpy as jnp
import numpy as np

import bijx
from bijx.lattice import scalar as S
from bijx.lattice.general import roll_lattice
from harness.core import NANV, err, ints, q1, shape


def guard(out, what, base, fn):
    try:
        out.append(dict(fn(), **base))
    except Exception as ex:  # noqa: BLE001
        out.append(err(what, ex, **base))


def fl(v):
    return [int(a) for a in np.asarray(v).ravel()]


def observe(cases):
    out = []
    for i, cs in cases:
        L = tuple(cs["L"])
        N = int(np.prod(L))
        rng = np.random.default_rng(i)
        f, h = rng.integers(-5, 6, size=(2,) + L)
        jf, jh = jnp.asarray(f, float), jnp.asarray(h, float)
        m2, lam, kap = (int(v) for v in rng.integers(-3, 5, 3))
        w = (lambda fn: jax.jit(fn)) if i % 3 == 0 else (lambda fn: fn)
        base = dict(ep=i, key=f"lattice={L} #{i}")
        G = dict(p=cs["p"], s=cs["s"], t=cs["t"])
        perm = np.asarray(cs["perm"])
        def move(a):
            r = np.empty(N, dtype=np.asarray(a).dtype)
            r[perm] = np.asarray(a).ravel()
            return r.reshape(L)
        def local():
            c = rng.integers(-3, 4, size=rng.integers(1, 4))
            r = [S.kinetic_term(jf), S.phi4_term(jf, m2, lam), S.phi4_term(jf, m2), S.phi4_term_alt(jf, kap, lam), S.phi4_term_alt(jf, kap),
                 S.poly_term(jf, jnp.asarray(c, float)), S.poly_term(jf, jnp.asarray(c, float), even=True)]
            kin, p4, fr, hop, hop0, po, ep = map(ints, r)
            return dict(ev="Local", L=list(L), f=fl(f), m2=m2, lam=lam, kap=kap, c=fl(c), kin=kin, phi4=p4, free=fr, hop=hop, hop0=hop0, poly=po, epoly=ep,
                        shapes=[shape(v) for v in r])
        guard(out, "densities", base, local)
        def act():
            gf = move(f)
            a = lambda v: ints([w(lambda u: S.phi4_term(u, m2, lam).sum())(jnp.asarray(v, float)), w(lambda u: S.phi4_term_alt(u, kap, lam).sum())(jnp.asarray(v, float))])
            return dict(ev="Act", L=list(L), f=fl(f), gf=fl(gf), m2=m2, lam=lam, kap=kap, a=a(f), ga=a(gf), **G)
        guard(out, "action", base, act)
        def corr():
            T = rng.integers(-5, 6, size=L + L)
            r = [S.cyclic_corr(jf, jh), S.cyclic_tensor(jf, jh), S.cyclic_corr_mat(jnp.asarray(T, float))]
            mat = lambda a: [ints(v) for v in np.asarray(a).reshape(N, N)]
            return dict(ev="Corr", L=list(L), f=fl(f), h=fl(h), T=mat(T), corr=ints(r[0] * N), tens=mat(r[1]), cmat=ints(r[2] * N), shapes=[shape(v) for v in r])
        guard(out, "correlations", base, corr)
        B = int(rng.integers(1, 4))
        fs = rng.integers(-4, 5, size=(B,) + L)
        def two():
            gfs = np.stack([move(v) for v in fs])
            a, g = jnp.asarray(fs, float), jnp.asarray(gfs, float)
            return dict(ev="Two", L=list(L), fs=[fl(v) for v in fs], two=ints(S.two_point(a) * N * B), each=[ints(v * N) for v in S.two_point(a, average=False)],
                        con=ints(S.two_point_central(a) * N * B * B), gtwo=ints(S.two_point(g) * N * B), gcon=ints(S.two_point_central(g) * N * B * B), **G)
        guard(out, "two-point", base, two)
        def mapped():
            r = jax.vmap(lambda v: S.phi4_term(v, m2, lam))(jnp.asarray(fs, float))
            return dict(ev="Mapped", L=list(L), fs=[fl(v) for v in fs], m2=m2, lam=lam, out=[ints(v) for v in r])
        guard(out, "vmap", base, mapped)
        def roll():
            c = rng.integers(-9, 9, size=L + (2,))
            loc = [int(v) for v in rng.integers(-3, 4, size=rng.integers(1, len(L) + 1))]
            inv = bool(i % 2)
            r = roll_lattice(jnp.asarray(c, float), tuple(loc), invert=inv)
            return dict(ev="Roll", L=list(L), f=[fl(v) for v in c.reshape(N, 2)], loc=loc, invert=inv, out=[ints(v) for v in np.asarray(r).reshape(N, 2)])
        guard(out, "roll", base, roll)
        def free():
            hf = bool(i % 2)
            mm = float(rng.choice([0.25, 1.0, 3.5]))
            c = int(rng.integers(0, 2))
            x = rng.integers(-3, 4, size=L + (2,) * c)
            y, _ = bijx.FreeTheoryScaling(mm, L, channel_dim=c, finite_size=True, half=hf, precompute_spectrum=bool(i % 3)).forward(jnp.asarray(x, float), jnp.zeros(()))
            y = y if c else y[..., None]
            s = sum(float(S.phi4_term(y[..., k], mm).sum()) for k in range(y.shape[-1]))
            return dict(ev="Free", half=hf, S=q1(s, 4096), xx=int((x ** 2).sum()) * 4096 if (x ** 2).sum() else 1)
        if i % 2 or True:
            e = []
            guard(e, "free", dict(base, key=base["key"] + " free theory"), free)
            if not (e[0]["ev"] == "Free" and e[0]["xx"] == 1):
                out += e
    return out


def lengths(_):
    out = []
    for b in (2, 3, 4):
        for T in range(3, 9):
            if T % 2 and b != 4:
                continue
            for sp in (1, 2, 3):
                base = dict(ep=f"len{b}{T}{sp}", key=f"correlation_length decay {b}^-t period {T} spatial {sp}")
                def go():
                    t = np.arange(T) - T / 2
                    g = float(b) ** t + float(b) ** -t
                    wts = np.array([1.0, 2.5, 0.5])[:sp]
                    return dict(ev="Length", base=b, xi=q1(S.correlation_length(jnp.asarray(wts[:, None] * g[None] * 0.37))))
                guard(out, "correlation_length", base, go)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    cases = ctx.generate("MCObs", cfg="MCObs.cfg" if ctx.quick else "MCObsDeep.cfg", timeout=1500)
    rng = ctx.nprng("c14")
    pick = rng.permutation(len(cases))[: 120 if ctx.quick else 3000]
    todo = [(i, cases[j]) for i, j in enumerate(pick)]
    m = 12 if ctx.quick else 48
    evs = ctx.pmap("checks.c14", "job", [("observe", todo[j::m]) for j in range(m)] + [("lengths", 0)])
    ctx.validate("ObsTrace", evs, cfg="Trace.cfg", timeout=1500)
