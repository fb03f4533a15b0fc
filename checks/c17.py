"""C17: Lie group operations against spec/Lie.tla."""
import jax
import jax.numpy as jnp
import numpy as np

from bijx import lie
from harness.core import NANV, err, q1, shape

R3 = np.sqrt(3.0)
SO3 = np.zeros((3, 3, 3))
for _i, (_a, _b) in enumerate([(1, 2), (2, 0), (0, 1)]):
    SO3[_i, _b, _a], SO3[_i, _a, _b] = 1, -1


def gens(k):
    return {"su2": lie.SU2_GEN, "su3": lie.SU3_GEN, "so3": jnp.asarray(SO3), "u1": lie.U1_GEN,
            "u2": jnp.concatenate([lie.SU2_GEN, 1j * jnp.eye(2)[None]]), "cartan": lie.SU3_GEN[jnp.array([2, 7])]}[k]


def root(k):
    """Square roots of the squared norms of the integral generators."""
    r = np.ones({"su2": 3, "su3": 8, "so3": 3, "u1": 1, "u2": 4, "cartan": 2}[k])
    if k in ("su3", "cartan"):
        r[-1] = R3
    return r


def den(k):
    return 3 if k in ("su3", "cartan") else 1


def zint(x, tol=1e-6):
    """Exactly representable integers, with a relative tolerance for float error."""
    x = float(x)
    r = round(x) if x == x and abs(x) < 1e9 else None
    return int(r) if r is not None and abs(x - r) < tol * max(1.0, abs(x)) else NANV


def zi(a):
    a = np.asarray(a)
    return zint(a) if a.ndim == 0 else [zi(v) for v in a]


def zc(a):
    """Nested lists of complex integers as pairs."""
    a = np.asarray(a)
    if a.ndim == 0:
        return [zint(a.real), zint(a.imag)]
    return [zc(v) for v in a]


def guard(out, what, base, fn):
    try:
        r = fn()
        out.append(dict(r, **base))
    except Exception as ex:  # noqa: BLE001
        out.append(err(what, ex, **{k: v for k, v in base.items() if k in ("ep", "key")}))


def mat(m, real):
    a = np.asarray(m, float)
    return a[..., 0] if real else a[..., 0] + 1j * a[..., 1]


def deg(f):
    return max(sum(sum(1 for l in fa["w"] if l[0] != "k") for fa in t["fs"]) for t in f)


def evalf(f, get, ks):
    """The function of the specification; get(j) is the element numbered j."""
    tot = 0.0
    for t in f:
        v = 1.0
        for fa in t["fs"]:
            m = None
            for kind, j in fa["w"]:
                x = ks[j - 1] if kind == "k" else get(j)
                if kind == "h":
                    x = x.conj().T
                elif kind == "t":
                    x = x.T
                elif kind == "c":
                    x = x.conj()
                m = x if m is None else m @ x
            tr = jnp.trace(m)
            v = v * (jnp.real(tr) if fa["p"] == "re" else jnp.imag(tr))
        tot = tot + t["c"] * v
    return tot


def derivs(cases):
    out = []
    for i, cs in cases:
        k, us, S, f = cs["k"], cs["us"], cs["S"], cs["f"]
        real = k == "so3"
        f2 = [dict(f[-1], c=2)] + [dict(c=1, fs=[dict(p="re", w=[["h", 2], ["k", 1], ["u", 3]])])]
        D = max(deg(f), deg(f2))
        n = len(us[0])
        rng = np.random.default_rng(i)
        U = [jnp.asarray(mat(u, real) / S) for u in us]
        ks = [jnp.asarray(mat(m, real)) for m in cs["ks"]]
        gs, rt, sc = gens(k), root(k), float(S) ** D
        jit = [lambda h: h, jax.jit][i % 2]
        case = dict(ep=f"{i}", k=k, us=us, S=S, f=f, ks=cs["ks"], D=D)
        key = f"{k} S={S} case {i}: "
        every = {1: U[0], 2: U[1], 3: U[2]}

        def single(j, extra=0):
            """A function of one element and keyword arguments, the element at position `extra`."""
            def fn(*args, mult=1.0):
                u = args[extra]
                rest = sum(a for a in args[:extra])
                return mult * evalf(f, lambda x: u if x == j else every[x], ks) + 0.0 * rest
            return fn

        def wrap_aux(fn, how):
            if how == 0:
                return fn
            def g(*a, **kw):
                v = fn(*a, **kw)
                return v, [v * 1.0, {"m": (v, jnp.arange(3))}][how - 1]
            return g

        def auxval(how, aux):
            return np.asarray(aux if how == 1 else aux["m"][0])

        # gradient in all its forms
        for r in range(3):
            j, pos, how, rv = 1 + (i + r) % 3, r % 2, (i + r) % 3, (i // 2 + r) % 2 == 0
            alg = None if (k in ("su2", "su3") and (i + r) % 2) else gs
            def go():
                fn = wrap_aux(single(j, pos), how)
                gr = lie.grad(fn, argnum=pos, return_value=rv, has_aux=how > 0, **({} if alg is None else dict(algebra=alg)))
                args = (jnp.ones(()),) * pos + (U[j - 1],)
                o = jit(lambda *a: gr(*a, mult=1.0))(*args)
                ev = dict(ev="Grad", leaf=[j])
                if rv:
                    v, g = o
                    if how:
                        v, aux = v
                        ev["aux"] = zint(auxval(how, aux) * sc)
                    ev["val"] = zint(v * sc)
                elif how:
                    g, aux = o
                    ev["aux"] = zint(auxval(how, aux) * sc)
                else:
                    g = o
                ev.update(G=[zc(np.asarray(g) * sc * den(k))], kept=g.shape == (n, n))
                return ev
            if k != "u1":
                guard(out, "grad", dict(case, key=key + f"grad leaf {j} aux {how} value {rv} generators {alg is not None}"), go)
        # one array holding several elements
        bsh = [(3,), (1, 3), (3, 1)][i % 3]
        def gob():
            arr = jnp.stack(U).reshape(bsh + (n, n))
            fn = lambda a: evalf(f, lambda x: a.reshape(3, n, n)[x - 1], ks)
            al = {} if k in ("su2", "su3") and i % 4 < 3 else dict(algebra=gs)
            v, g = jit(lie.grad(fn, return_value=True, **al))(arr)
            return dict(ev="Grad", leaf=[1, 2, 3], val=zint(v * sc), G=[zc(x) for x in np.asarray(g).reshape(3, n, n) * sc * den(k)], kept=g.shape == arr.shape)
        if k != "u1":
            guard(out, "grad", dict(case, key=key + f"grad of a batch {bsh}"), gob)
        # curves
        for r in range(3):
            j, pos, how, rv, left = 1 + (i + r) % 3, (r + 1) % 2, (i + 2 * r) % 3, (i + r) % 2 == 0, (i // 2 + r) % 2 == 0
            X = rng.integers(-2, 3, len(rt))
            if r == 2:
                X = np.eye(len(rt), dtype=int)[i % len(rt)]
            dirn = jnp.einsum("e,eij->ij", jnp.asarray(X * rt), gs)
            many = r == 1 and i % 3 == 0
            def goc():
                if many:
                    fn0 = lambda *a, mult=1.0: mult * evalf(f, lambda x: a[pos][x - 1], ks)
                    arg = jnp.stack(U)
                else:
                    fn0, arg = single(j, pos), U[j - 1]
                fn = wrap_aux(fn0, how)
                c = lie.curve_grad(fn, dirn, argnum=pos, has_aux=how > 0, return_value=rv, left=left)
                o = jit(lambda *a: c(*a, mult=1.0))(*((jnp.ones(()),) * pos + (arg,)))
                o = list(o) if isinstance(o, tuple) else [o]
                ev = dict(ev="Curve", leaf=[1, 2, 3] if many else [j], X=X.tolist(), left=bool(left))
                if rv:
                    ev["val"] = zint(o.pop(0) * sc)
                ev["d"] = zint(o.pop(0) * sc)
                if how:
                    ev["aux"] = zint(auxval(how, o.pop(0)) * sc)
                assert not o
                return ev
            guard(out, "curve_grad", dict(case, key=key + f"curve_grad leaf {j} many {many} aux {how} value {rv} left {bool(left)} X {X.tolist()}"), goc)
        # value, gradient, Laplacian
        jl = 1 + i % 3
        def gol():
            fn = single(jl)
            if i % 4 == 3:   # vectorized over elements
                v, g, d = (o[1] for o in jax.vmap(lambda u: lie.value_grad_divergence(fn, u, gs))(jnp.stack([U[0] @ U[1], U[jl - 1]])))
            else:
                v, g, d = jit(lambda u: lie.value_grad_divergence(fn, u, gs))(U[jl - 1])
            return dict(ev="Lap", leaf=jl, val=zint(v * sc), G=zc(np.asarray(g) * sc * den(k)), lap=zint(d * sc * den(k)))
        if k != "u1":
            guard(out, "value_grad_divergence", dict(case, key=key + f"value_grad_divergence leaf {jl}"), gol)
        # path derivatives over trees of elements
        form = i % 4
        stack = lambda js, sh=None: jnp.stack([U[x] for x in js]).reshape((sh or (len(js),)) + (n, n))
        trees = [
            ([U[0], U[1], U[2]], lambda t: (t[0], t[1], t[2])),
            ({"a": stack([0, 1]), "b": U[2]}, lambda t: (t["a"][0], t["a"][1], t["b"])),
            (stack([0, 1, 2], (1, 3)), lambda t: (t[0, 0], t[0, 1], t[0, 2])),
            ((U[0], {"x": [stack([1], (1, 1)), U[2]]}), lambda t: (t[0], t[1]["x"][0][0, 0], t[1]["x"][1])),
        ]
        tree, get = trees[form]
        for r in range(2):
            shape_ = (i // 4 + r) % 3   # scalar, vector, tree of outputs
            fs = [f] if shape_ == 0 else [f, f2]
            def gop():
                def fun(t):
                    el = get(t)
                    v = [evalf(g, lambda x: el[x - 1], ks) for g in fs]
                    return v[0] if shape_ == 0 else (jnp.stack(v) if shape_ == 1 else {"p": v[0], "q": (v[1],)})
                o = jit(lambda t: (lie.path_grad2 if r else lie.path_grad)(fun, gs, t))(tree)
                def rows(jac):
                    """per function, per element: components"""
                    parts = [jac] if shape_ == 0 else ([jax.tree.map(lambda a: a[x], jac) for x in (0, 1)] if shape_ == 1 else [jac["p"], jac["q"][0]])
                    return [np.concatenate([np.asarray(a).reshape(-1, len(rt)) for a in jax.tree.leaves(p)]) for p in parts], parts
                vals = [o[0]] if shape_ == 0 else (list(o[0]) if shape_ == 1 else [o[0]["p"], o[0]["q"][0]])
                jr, parts = rows(o[1])
                kept = all(jax.tree.structure(p) == jax.tree.structure(tree) for p in parts) and all(
                    a.shape == u.shape[:-2] + (len(rt),) for p in parts for a, u in zip(jax.tree.leaves(p), jax.tree.leaves(tree)))
                ev = dict(ev="Path", fs=fs, vals=[zint(v * sc) for v in vals], jac=[zi(a * sc * rt) for a in jr], kept=bool(kept))
                if r:
                    ev["jac2"] = [zi(a * sc * rt**2) for a in rows(o[2])[0]]
                return ev
            guard(out, "path_grad", dict(case, key=key + f"path_grad order {r + 1} form {form} output {shape_}"), gop)
        def god():
            c, d = rng.integers(-2, 3, (2, 3, len(rt)))
            arr = stack([0, 1, 2], bsh)
            def fun(a):
                el = a.reshape(3, n, n)
                v = [evalf(g, lambda x: el[x - 1], ks) for g in (f, f2)]
                return ((c * v[0] + d * v[1]) * rt).reshape(bsh + (len(rt),))
            o, dv = lie.path_div(fun, gs, arr)
            return dict(ev="Div", fs=[f, f2], c=c.tolist(), d=d.tolist(), out=zi(np.asarray(o) * sc / rt), div=zint(dv * sc))
        guard(out, "path_div", dict(case, key=key + f"path_div {bsh}"), god)
    return out


def algebra(seeds):
    out = []
    for k in ("su2", "su3", "so3", "u1", "u2", "cartan"):
        def go():
            rt = root(k)
            g = np.asarray(gens(k)) * rt[:, None, None]
            gram = np.asarray(lie.scalar_prod(g[:, None], g[None]))
            return dict(ev="Gens", k=k, g=zc(g), gram=zc(gram if k != "u1" else gram))
        guard(out, "gens", dict(ep=k, key=f"generators {k}"), go)
    for i in seeds:
        rng = np.random.default_rng(1000 + i)
        cplx = i % 4 != 3
        rnd = lambda sh: rng.integers(-3, 4, sh) + (1j * rng.integers(-3, 4, sh) if cplx else 0)
        full = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 4))))
        def bshape(x):
            t = int(rng.integers(0, 4))
            if t == 0 and x:
                return ()
            if t == 1:
                return tuple(1 if rng.integers(0, 2) else s for s in full)
            return full
        m = int(rng.integers(1, 5))
        dims = [int(v) for v in rng.integers(1, 4, m + 1)]
        trace = i % 2 == 0
        if trace:
            dims[-1] = dims[0]
        shs = [bshape(x) for x in range(m)]
        ms = [rnd(s + (dims[x], dims[x + 1])) for x, s in enumerate(shs)]
        flat = lambda a: [zc(b) for b in np.asarray(a, complex).reshape((-1,) + a.shape[-2:])]
        def con():
            h = (lambda *a: lie.contract(*a, trace=trace)) if trace or i % 3 else lie.contract
            r = (jax.jit(h) if i % 5 == 0 else h)(*[jnp.asarray(a) for a in ms])
            no = 0 if trace else 2
            osh = shape(r)[: len(shape(r)) - no]
            fo = [zc(v) for v in np.asarray(r, complex).reshape((-1,) + (() if trace else (dims[0], dims[-1])))]
            if not trace:
                assert r.shape[-2:] == (dims[0], dims[-1])
            return dict(ev="Contract", shs=[list(s) for s in shs], ms=[flat(a) for a in ms], trace=trace, osh=osh, out=fo)
        guard(out, "contract", dict(ep=f"a{i}", key=f"contract {shs} {dims} trace {trace}"), con)
        def inn():
            a, b = (rnd(bs + (dims[0], dims[1])) for bs in (shs[0], full))
            r = lie.scalar_prod(jnp.asarray(a), jnp.asarray(b))
            return dict(ev="Inner", shs=[list(shs[0]), list(full)], ms=[flat(a), flat(b)], osh=shape(r), out=[zc(v) for v in 2 * np.asarray(r, complex).ravel()])
        guard(out, "scalar_prod", dict(ep=f"a{i}", key=f"scalar_prod {shs[0]} {full} {dims[:2]}"), inn)
        def adj():
            a = rnd(full + (dims[0], dims[1]))
            r = lie.adjoint(jnp.asarray(a))
            return dict(ev="Dag", a=flat(a), b=flat(np.asarray(r)), kept=r.shape == full + (dims[1], dims[0]))
        guard(out, "adjoint", dict(ep=f"a{i}", key=f"adjoint {full} {dims[:2]}"), adj)
        def prj():
            n = int(rng.integers(2, 5))
            U = np.zeros(full + (n, n), complex)
            for ix in np.ndindex(*full):
                U[ix][np.arange(n), rng.permutation(n)] = 1j ** rng.integers(0, 4, n)
            A = rng.integers(-4, 5, full + (n, n)) + 1j * rng.integers(-4, 5, full + (n, n))
            h = jax.jit(lie.skew_traceless_cot) if i % 3 == 0 else lie.skew_traceless_cot
            P = np.asarray(h(jnp.asarray(A), jnp.asarray(U)))
            return dict(ev="Proj", us=flat(U), P=flat(n * P), kept=P.shape == U.shape, **{"as": flat(A)})
        guard(out, "skew_traceless_cot", dict(ep=f"a{i}", key=f"projection {full}"), prj)
    return out


def ingroup(u):
    u = np.asarray(u)
    n = u.shape[-1]
    return bool(u.size == 0 or (np.abs(u @ u.conj().swapaxes(-1, -2) - np.eye(n)).max() < 1e-9 and np.abs(np.linalg.det(u) - 1).max() < 1e-9))


def angles(seeds):
    out = []
    for i in seeds:
        rng = np.random.default_rng(50 + i)
        n = 2 + i % 3
        bsh = [(), (1,), (4,), (2, 3), (5, 1), (1, 1), (2, 1, 2)][i % 7]
        unit = 2 if i % 2 else 3     # multiples of 60 or of 90 degrees
        th = unit * rng.integers(-5, 6, bsh + (n - 1,))
        ang = jnp.asarray(th * (np.pi / 6))
        fl = th.reshape(-1, n - 1).tolist()
        base = dict(ep=f"e{i}", key=f"angles n={n} batch {bsh}")
        def de():
            r = lie.compute_haar_density(ang)
            return dict(ev="Vander", th=fl, rho=[zint(v) for v in np.asarray(r).ravel()], kept=r.shape == bsh)
        guard(out, "compute_haar_density", base, de)
        def co():
            kk = jax.random.key(i)
            u = lie.construct_su_matrix_from_eigenvalues(kk, ang)
            v = np.asarray(u).reshape(-1, n, n)
            tr = [[[q1(z.real), q1(z.imag)] for z in (np.trace(np.linalg.matrix_power(a, p)) for p in range(1, n))] for a in v]
            wide = lie.construct_su_matrix_from_eigenvalues(kk, jnp.full((3, n - 1), np.pi / 3) * jnp.arange(1, n))
            off = np.abs(np.asarray(wide) * (1 - np.eye(n))).max((-1, -2))
            two = np.asarray(wide[0] - wide[1])
            return dict(ev="Eigen", th=fl, tr=tr, group=ingroup(u), kept=u.shape == bsh + (n, n), generic=bool((off > 1e-3).all() and np.abs(two).max() > 1e-3))
        guard(out, "construct_su_matrix_from_eigenvalues", base, co)
        for g in (1, 2, 3):
            if n == 4 and g == 3 and i > 7:
                continue
            dom = "torus" if i % 2 else "weyl_chamber"
            def gr():
                norm = bool((i + g) % 3)
                kw = {} if norm and i % 4 else dict(normalize=norm)
                if norm and dom == "torus":
                    kw["normalization_domain"] = dom
                a, fv, w = lie.evaluate_density_on_eigenvalue_grid(lambda U: jnp.trace(U, axis1=-2, axis2=-1).real, n, g, rng=jax.random.key(i) if i % 2 else None, **kw)
                c = 1.0 if not norm else (2 * np.pi) ** (n - 1) * (np.prod(np.arange(1, n + 1)) if dom == "torus" else 1)
                return dict(ev="Grid", n=n, g=g, th=[[zint(x) for x in v] for v in np.asarray(a) * 6 / np.pi], w=[zint(v) for v in np.asarray(w) * c], fv=[q1(v) for v in np.asarray(fv)])
            guard(out, "evaluate_density_on_eigenvalue_grid", dict(base, key=f"grid n={n} points {g} {dom}"), gr)
        def qd():
            g = 7 + i % 4
            a, fv, w = lie.evaluate_density_on_eigenvalue_grid(lambda U: jnp.ones(U.shape[:-2]), n, g, normalization_domain="torus" if i % 2 else "weyl_chamber")
            return dict(ev="Quad", n=n, torus=bool(i % 2), total=q1(np.sum(np.asarray(w) * np.asarray(fv)) * (2 * np.pi / g) ** (n - 1)))
        guard(out, "evaluate_density_on_eigenvalue_grid", dict(base, key=f"quadrature n={n}"), qd)
    return out


def haar(seeds):
    out = []
    for i in seeds:
        n = 2 + i % 4
        batch = [(), (3,), (2, 2), (1,), (0,)][i % 5]
        base_ = [(), (2,), (2, 3, 2), (1,)][i % 4]
        kk = jax.random.key(77 + i)
        def go():
            if i % 3 == 2:
                lat = (2, 3)[: 1 + i % 2]
                dist, b0 = lie.HaarDistribution.periodic_gauge_lattice(n, lat), lat + (len(lat),)
            else:
                dist, b0 = lie.HaarDistribution(n, base_), base_
            s, ld = dist.sample(batch, rng=kk)
            s2, _ = dist.sample(batch, rng=kk)
            s3, _ = dist.sample(batch, rng=jax.random.key(1000 + i))
            ld2 = dist.log_density(s)
            el = np.asarray(s).reshape(-1, n, n)
            dist_ = all(np.abs(el[a] - el[b]).max() > 1e-6 for a in range(min(len(el), 6)) for b in range(a))
            return dict(ev="Haar", n=n, batch=list(batch), base=list(b0), sh=shape(s), lsh=shape(ld), dsh=shape(ld2), ld=[zint(v) for v in np.concatenate([np.ravel(ld), np.ravel(ld2)])],
                        group=ingroup(s), same=bool((np.asarray(s) == np.asarray(s2)).all()), differ=bool(s.size == 0 or (np.abs(np.asarray(s - s3)).max() > 1e-6 and dist_)))
        guard(out, "HaarDistribution", dict(ep=f"h{i}", key=f"haar n={n} batch {batch} base {base_}"), go)
    return out


def averages(arg):
    """Characters and matrix elements averaged over many samples."""
    n, N, seed, how = arg
    out = []
    def go():
        u = np.asarray(lie.sample_haar(jax.random.key(seed), n, (N,)))
        V = np.asarray(lie.sample_haar(jax.random.key(seed + 1), n))
        w = {"u": u, "vu": V @ u, "uv": u @ V, "uinv": u.conj().swapaxes(-1, -2), "pair": u[0::2] @ u[1::2]}[how]
        t1 = np.trace(w, axis1=-2, axis2=-1)
        t2 = np.trace(w @ w, axis1=-2, axis2=-1)
        sym, alt = (t1**2 + t2) / 2, (t1**2 - t2) / 2
        adj = np.abs(t1) ** 2 - 1
        obs = [("tr", t1, (0, 1)), ("|tr|^2", np.abs(t1) ** 2, (1, 1)), ("sym", sym, (0, 1)), ("|sym|^2", np.abs(sym) ** 2, (1, 1)), ("|alt|^2", np.abs(alt) ** 2, (1, 1)),
               ("sym alt*", sym * alt.conj(), (0, 1)), ("adj", adj, (0, 1)), ("adj^2", adj**2, (1, 1)), ("tr conj(sym)", t1 * sym.conj(), (0, 1)),
               ("alt", alt, (1 if n == 2 else 0, 1)), ("tr alt", t1 * alt, (1 if n == 3 else 0, 1)), ("tr^2", t1**2, (1 if n == 2 else 0, 1))]
        for a in range(n):
            for b in range(n):
                obs.append((f"u{a}{b}", w[:, a, b], (0, 1)))
                obs.append((f"|u{a}{b}|^2", np.abs(w[:, a, b]) ** 2, (1, n)))
                obs.append((f"|u{a}{b}|^4", np.abs(w[:, a, b]) ** 4, (2, n * (n + 1))))
                obs.append((f"u{a}{b} u{b}{a}*", w[:, a, b] * w[:, b, a].conj(), (1 if a == b else 0, n if a == b else 1)))
                obs.append((f"u00 u{a}{b}*", w[:, 0, 0] * w[:, a, b].conj(), (1 if a == b == 0 else 0, n if a == b == 0 else 1)))
        res = []
        for nm, z, want in obs:
            m, sd = z.mean(), np.sqrt((np.abs(z - z.mean()) ** 2).mean() / len(z))
            res.append(dict(ev="Avg", ep=f"{n}{how}", key=f"haar average n={n} {how} {nm}", re=q1(m.real), im=q1(m.imag), want=list(want), tol=int(6 * max(sd, 1e-4) * 2**20)))
        return res
    try:
        out += go()
    except Exception as ex:  # noqa: BLE001
        out.append(err("sample_haar", ex, ep="avg", key=f"haar averages n={n}"))
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCLie")
    if not ctx.quick:
        ctx.model("MCLie", "MCLieWords.cfg")
        ctx.model("MCLie", "MCLieDeep.cfg")
    sim = ctx.generate("MCLie", cfg="MCLieSim.cfg", extra=("-simulate", f"num={40 if ctx.quick else 400}", "-depth", "12", "-seed", str(ctx.seed + 5)))
    rng = ctx.nprng("c17")
    kinds = ("su2", "su3", "so3", "u1", "u2", "cartan")
    per = dict(zip(kinds, (8, 8, 4, 2, 3, 3) if ctx.quick else (120, 120, 40, 16, 40, 40)))
    pick = []
    for k in kinds:
        c = [x for x in sim if x["k"] == k]
        pick += [c[j] for j in rng.permutation(len(c))[: per[k]]]
    todo = [(j, pick[j]) for j in rng.permutation(len(pick)).tolist()]
    todo = list(enumerate(c for _, c in todo))
    m = 14 if ctx.quick else 56
    na, ne, nh = (60, 14, 20) if ctx.quick else (600, 56, 80)
    N = 20000 if ctx.quick else 100000
    evs = ctx.pmap("checks.c17", "job", [("derivs", todo[j::m]) for j in range(m)]
                   + [("averages", (n, N, 10 * n + x + 100 * ctx.seed, how)) for n in (2, 3, 4) for x, how in enumerate(("u", "vu", "uv", "uinv", "pair"))]
                   + [("algebra", list(range(j, na, 3))) for j in range(3)] + [("angles", list(range(j, ne, 2))) for j in range(2)] + [("haar", list(range(nh)))])
    ctx.validate("LieTrace", evs, cfg="Trace.cfg", timeout=3000)
