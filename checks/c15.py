"""C15: fixed-step integrators against spec/Stepper.tla."""
import diffrax
import jax
import jax.numpy as jnp
import numpy as np

from bijx import cg
from bijx.solvers import DiffraxConfig, odeint_rk4
from harness.core import NANV, err, ints, q

D = dict(Euler=1, CG2=2, CG3=3672, RK4=6, Heun=2, X3=3, X4=4)


def tableau(nm):
    T = cg.ButcherTableau
    return {
        "Euler": lambda: cg.EULER, "CG2": lambda: cg.CG2, "CG3": lambda: cg.CG3,
        "RK4": lambda: T([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
        "Heun": lambda: T([[0, 0], [1, 0]], [.5, .5]),
        "X3": lambda: T([[0] * 4, [2 / 3, 0, 0, 0], [1 / 3, 1 / 3, 0, 0], [0, -1 / 3, 2 / 3, 0]], [1 / 3, 0, 1 / 3, 1 / 3]),
        "X4": lambda: T([[0] * 3, [.25, 0, 0], [-.5, .75, 0]], [.5, -.25, .75]),
    }[nm]()


SOLV = dict(Euler=diffrax.Euler, CG2=diffrax.Midpoint, Heun=diffrax.Heun)
ROW = np.array([2.0 ** -20, 2.0 ** -10, 1.0])[:, None]  # rows of matrices are scaled to stay of order one


def guard(out, what, base, fn):
    try:
        out.append(dict(fn(), **base))
    except Exception as ex:  # noqa: BLE001
        out.append(err(what, ex, **base))


def big(x):
    """Exact integers up to the range of TLC."""
    out = []
    for v in np.asarray(x, float).ravel().tolist():
        r = round(v) if v == v and abs(v) < 2e9 else None
        out.append(int(r) if r is not None and abs(v - r) < 1e-3 else NANV)
    return out


def fl(v):
    return [int(a) for a in np.asarray(v).ravel()]


def digest(nm, P, tscale, t, v, X):
    """The erratic field of the specification on flat v (n,) and X (b,3,3)."""
    d = D[nm]
    P = jnp.round(P)
    T = jnp.round(24 * t / tscale)
    vi, Xi = jnp.round(v), jnp.round(X / ROW)
    n, b = v.shape[0], X.shape[0]
    S = T + jnp.sum(jnp.arange(1, n + 1) * jnp.mod(vi, 7))
    w = jnp.arange(1, b + 1)[:, None, None] + 3 * jnp.arange(1, 4)[:, None] + jnp.arange(1, 4)
    S = S + jnp.sum(w * jnp.mod(Xi, 7))
    kv = 2 * (jnp.mod(S * jnp.arange(1, n + 1) + P[:n], 7) - 3)
    bi = jnp.arange(1, b + 1)
    p = 2 * (jnp.mod(S + bi + P[0], 3) - 1)
    qq = 2 * (jnp.mod(2 * S + bi + P[1], 3) - 1)
    r = 2 * (jnp.mod(S + bi + P[2], 7) - 3)
    o = jnp.zeros_like(p)
    K = jnp.stack([jnp.stack([o, p, r], -1), jnp.stack([o, o, qq], -1), jnp.stack([o, o, o], -1)], -2)
    return kv * d / tscale, K * (ROW / ROW[:, 0]) * d / tscale


def pack(form, v, X):
    if form == 0:
        return (X, v)
    if form == 1:
        return {"a": v[:1], "b": {"x": X, "y": v[1:].reshape(1, -1)}}
    return (v[:2], [v[2:], {"m": X}])


def unpack(form, y):
    if form == 0:
        return y[1], y[0]
    if form == 1:
        return jnp.concatenate([y["a"], y["b"]["y"].ravel()]), y["b"]["x"]
    return jnp.concatenate([y[0], y[1][0]]), y[1][1]["m"]


def types(form):
    E, M = cg.Euclidean(), cg.Matrix()
    return [(M, E), {"a": E, "b": {"x": M, "y": E}}, (E, [E, {"m": M}])][form]


def runs(cases):
    out = []
    for i, cs in cases:
        nm, t0, t1, h = cs["tab"], cs["t0"], cs["t1"], cs["h"]
        rng = np.random.default_rng(i)
        ts = float(rng.choice([1.0, 0.5, 0.125, 0.1, 0.3]))
        if h > 50 and i % 2:
            ts /= 1024
        n = int(rng.integers(3, 6))
        P = rng.integers(0, 7, n)
        v0 = rng.integers(-5, 6, n)
        how = i % 4
        for solver in ("cg", "rk4", "diffrax"):
            if (solver == "rk4" and nm != "RK4") or (solver == "diffrax" and nm not in SOLV):
                continue
            nX = int(rng.integers(1, 3)) if solver == "cg" and (nm != "CG3" or abs(t1 - t0) <= 2) and (how != 2) else 0
            if (nm != "CG3" and abs(t1 - t0) * max(h, 1) > 12) or i % 3 == 1:
                nX = 0
            if solver == "diffrax" and (abs(t1 - t0) % h or i % 2):   # diffrax itself equalises the steps otherwise
                continue
            X0 = rng.integers(-1, 2, (nX, 3, 3))
            form = int(rng.integers(0, 3))
            base = dict(ep=f"{i}{solver}", key=f"{solver} {nm} {t0}->{t1} step {h} scale {ts} form {form}" + ["", " jit", " vmap", " jit"][how])
            def go():
                def f(t, y, P):
                    v, X = unpack(form, y)
                    return pack(form, *digest(nm, P["p"][0], ts, t, v, X))
                def solve(v, a, b):
                    y0 = pack(form, v, jnp.asarray(X0 * ROW if nX else np.zeros((0, 3, 3))))
                    args = {"p": [jnp.asarray(P, float)]}
                    if solver == "cg":
                        st = h * ts * (1 if t1 >= t0 else -1)
                        return cg.crouch_grossmann(f, y0, args, a, b, st, manifold_types=types(form) if (nX or i % 2) else cg.Euclidean(), tableau=tableau(nm))
                    if solver == "rk4":
                        return odeint_rk4(f, y0, b, args, step_size=h * ts, start_time=a)
                    c = DiffraxConfig(solver=SOLV[nm](), t_start=a, t_end=b, dt=h * ts * (1 if i % 4 else -1))
                    return jax.tree.map(lambda u: u[-1], c.solve(diffrax.ODETerm(f), y0, args).ys)
                jv = jnp.asarray(v0, float)
                if how == 1 or how == 3:
                    y = jax.jit(solve)(jv, t0 * ts, t1 * ts) if solver != "diffrax" else jax.jit(lambda u: solve(u, t0 * ts, t1 * ts))(jv)
                elif how == 2:   # a batch in which every member has its own interval
                    vs = jnp.stack([jv + 1, jv, jv - 2])
                    a = jnp.asarray([t0 - h, t0, t0 if t1 >= t0 else t0 + 2 * h], float) * ts
                    b = jnp.asarray([t1, t1, t1 + 3 if t1 >= t0 else t1 - 1], float) * ts
                    if t1 < t0:
                        a = a.at[0].set((t0 + 1) * ts)
                    y = jax.tree.map(lambda u: u[1], jax.vmap(solve)(vs, a, b))
                else:
                    y = solve(jv, t0 * ts, t1 * ts)
                tmpl = pack(form, jv, jnp.asarray(X0 * ROW if nX else np.zeros((0, 3, 3))))
                kept = jax.tree.structure(y) == jax.tree.structure(tmpl) and all(
                    jax.tree.leaves(jax.tree.map(lambda p, r: p.shape == r.shape and p.dtype == r.dtype, y, tmpl)))
                v, X = unpack(form, y)
                return dict(ev="Run", tab=nm, t0=t0, t1=t1, h=h, P=fl(P), v=fl(v0), X=[x.tolist() for x in X0], ov=big(v),
                            oX=[[big(r) for r in np.asarray(x) / ROW] for x in X], kept=bool(kept))
            guard(out, solver, base, go)
    return out


def long_cases(seed, n):
    """Long steps in fine time units: the last one may be any fraction of a step."""
    rng = np.random.default_rng([seed, 77])
    out = []
    while len(out) < n:
        h = int(rng.integers(100, 3000))
        k = int(rng.integers(1, 5))
        rest = int(rng.choice([0, 1, 2, h // 200, h // 60, h // 2, h - 1]))
        t0 = int(rng.integers(-2000, 2000))
        out.append(dict(tab=["Euler", "RK4", "CG2", "Heun", "X4"][len(out) % 5], t0=t0, t1=t0 + (k * h + rest) * (-1 if len(out) % 3 == 2 else 1), h=h))
    return out


def grads(cases):
    out = []
    for i, cs in cases:
        t0, t1, h = cs["t0"], cs["t1"], cs["h"]
        rng = np.random.default_rng(i)
        ts = float(rng.choice([1.0, 0.5, 0.1]))
        P = 12 * rng.integers(-2, 3, 3)
        v0, w = rng.integers(-4, 5, (2, 2))
        for form in ("args", "closure"):
            base = dict(ep=f"g{i}{form}", key=f"gradient {form} {t0}->{t1} step {h} scale {ts}")
            def go():
                def fld(t, y, p, c):
                    return {"x": p["a"] / ts, "y": (p["b"] * y["x"] + c * t / ts) / ts}
                def loss(p, c, y, a, b):
                    if form == "args":
                        r = odeint_rk4(fld, y, b, p, c, step_size=h * ts, start_time=a)
                    else:
                        r = odeint_rk4(lambda t, u: fld(t, u, p, c), y, b, step_size=h * ts, start_time=a)
                    return r["x"] * w[0] + r["y"] * w[1]
                g = jax.value_and_grad(loss, argnums=(0, 1, 2, 3, 4))
                g = jax.jit(g) if i % 2 else g
                val, (gp, gc, gy, ga, gb) = g(dict(a=jnp.asarray(float(P[0])), b=jnp.asarray(float(P[1]))), float(P[2]),
                                              dict(x=jnp.asarray(float(v0[0])), y=jnp.asarray(float(v0[1]))), t0 * ts, t1 * ts)
                return dict(ev="Grad", t0=t0, t1=t1, h=h, P=fl(P), v=fl(v0), w=fl(w), gp=big(2 * np.array([gp["a"], gp["b"], gc])), gv=big([gy["x"], gy["y"]]),
                            gt=big(np.array([ga, gb]) * ts), val=big(val)[0])
            guard(out, "odeint_rk4", base, go)
    return out


def anti(x, tr=True):
    x = (x - np.conj(np.swapaxes(x, -1, -2))) / 2
    n = x.shape[-1]
    return x - np.trace(x, axis1=-2, axis2=-1)[..., None, None] / n * np.eye(n) if tr else x


def groups(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(900 + i)
        n = int(rng.integers(2, 4))
        special = bool(rng.integers(0, 2))
        nm = ["Euler", "CG2", "CG3", "X4"][i % 4]
        back = bool(rng.integers(0, 2))
        bsh = [(), (2,)][int(rng.integers(0, 2))]
        cm = lambda *s: rng.normal(size=s + (n, n)) + 1j * rng.normal(size=s + (n, n))
        A, Bm = jnp.asarray(anti(cm(), special)) * 0.6, jnp.asarray(anti(cm(), special)) * 0.6
        U0 = jax.scipy.linalg.expm(jnp.asarray(anti(cm(*bsh), special)))
        W = jnp.asarray(cm(*bsh))
        a, b = (1.1, -0.2) if back else (-0.3, 1.0)
        h = (1 / 32) * (-1 if back else 1) * (1 if nm != "Euler" else 1 / 8)
        def vf(t, y, th):
            U, z = y
            s = jnp.real(jnp.trace(U @ A, axis1=-2, axis2=-1))
            return s[..., None, None] * th["k"] * A + jnp.cos(t + th["s"]) * Bm, jnp.sin(s) * th["k"] + 0.3 * z
        def flow(th, U, z, t0, t1, turn=1, **kw):
            return cg.crouch_grossmann(vf, (U, z), th, t0, t1, h * turn,
                                       manifold_types=(cg.Unitary(special=special, **kw), cg.Euclidean()), tableau=tableau(nm))
        th0 = dict(k=jnp.asarray(0.7), s=jnp.asarray(0.2))
        z0 = jnp.asarray(rng.normal(size=bsh))
        gram = lambda U: q((U @ jnp.conj(jnp.swapaxes(U, -1, -2))).reshape(-1, n, n)[-1])
        base = dict(ep=f"u{i}", key=f"U({n}) {nm} special={special} back={back} batch={bsh}")
        for opt in ({}, dict(project_step=True), dict(project_stage=True)):
            def onto():
                c = 1.0 if not opt else 1.25
                U1, _ = flow(th0, c * U0, z0, a, b, **opt)
                Ul = np.asarray(U1).reshape(-1, n, n)[-1]
                return dict(ev="Group", n=n, special=special, gram=gram(U1), det=q(np.linalg.det(Ul)), scale=1)
            guard(out, "projection", dict(base, key=base["key"] + f" {opt}"), onto)
        def back_again():
            U1, z1 = flow(th0, U0, z0, a, b)
            U2, z2 = flow(th0, U1, z1, b, a, -1)
            return dict(ev="Back", x0=q(U0) + q(z0), x1=q(U1) + q(z1), x2=q(U2) + q(z2), tol=40000 if nm == "Euler" else 2000)
        if nm != "X4":
            guard(out, "retrace", base, back_again)
        variants = [dict(), dict(transport_adjoint=True), dict(transport_adjoint=True, project_step=True, derivative=cg.UnitaryDeriv(project_step=True, special=special)),
                    dict(transport_adjoint=True, derivative=cg.UnitaryDeriv(project_stage=True, special=special)), dict(project_stage=True)]
        kw = variants[i % 5]
        Ad = jnp.asarray(anti(cm(*bsh), special))
        def sens():
            def loss(th, d, z, t0, t1):
                U = jax.scipy.linalg.expm(d * Ad) @ U0
                U1, z1 = flow(th, U, z, t0, t1, **kw)
                return jnp.sum(jnp.real(W * U1)) + jnp.sum(jnp.sin(z1) * 1.3)
            x = (th0, 0.3, z0, a, b)
            g = jax.jit(jax.grad(loss, argnums=(0, 1, 2, 3, 4)))(*x)
            lj = jax.jit(loss)
            xs, un = jax.flatten_util.ravel_pytree(x)
            ep = 1e-4
            fd = [(lj(*un(xs.at[k].add(ep))) - lj(*un(xs.at[k].add(-ep)))) / (2 * ep) for k in range(xs.size)]
            return dict(ev="Adj", g=q(jax.flatten_util.ravel_pytree(g)[0], 4096), fd=q(np.array(fd), 4096), tol={"Euler": 1200, "CG2": 150, "CG3": 40}[nm])
        if nm != "X4":
            guard(out, "adjoint", dict(base, key=base["key"] + f" adjoint {sorted(kw)}"), sens)
        def alg():
            x = rng.integers(-6, 7, (2, n, n)) + 1j * rng.integers(-6, 7, (2, n, n))
            d = cg.UnitaryDeriv(special=special)
            p = d.project(jnp.asarray(x))
            return dict(ev="Alg", n=n, special=special, x=[ints(v) for v in x], p=[ints(v * 2 * n) for v in p], pp=[ints(v * 2 * n) for v in d.project(p)])
        guard(out, "algebra projection", base, alg)
        def near():
            H = np.eye(n) + 0.1 * (lambda m: m + m.conj().T)(cm())
            u = np.linalg.qr(cm())[0]
            p = cg.Unitary(special=special).project(jnp.asarray(np.stack([H @ u, u])))
            return dict(ev="Group", n=n, special=special, gram=gram(p[:1]), det=q(np.linalg.det(np.asarray(p[0]))), scale=1)
        guard(out, "group projection", base, near)
    return out


def smooth(idx):
    out = []
    for i in idx:
        rng = np.random.default_rng(300 + i)
        A = jnp.asarray(rng.normal(size=(3, 3))) * 0.5
        y0 = {"a": jnp.asarray(rng.normal(size=3)), "b": jnp.asarray(rng.normal(size=(2,)))}
        a, b = ((0.2, 1.4), (1.3, -0.5), (-2.0, -0.75))[i % 3]
        def f(t, y, p):
            return {"a": jnp.tanh(A @ y["a"]) + jnp.cos(t) * p["u"], "b": jnp.sin(y["b"] * p["u"][:2]) + y["a"][0]}
        p0 = {"u": jnp.asarray(rng.normal(size=3))}
        h = 1 / 24
        base = dict(ep=f"s{i}", key=f"odeint_rk4 smooth {a}->{b}")
        def back():
            y1 = odeint_rk4(f, y0, b, p0, step_size=h, start_time=a)
            y2 = odeint_rk4(f, y1, a, p0, step_size=h, start_time=b)
            fq = lambda y: q(y["a"]) + q(y["b"])
            return dict(ev="Back", x0=fq(y0), x1=fq(y1), x2=fq(y2), tol=64)
        guard(out, "retrace", base, back)
        def sens():
            def loss(y, p, s, e):
                r = odeint_rk4(f, y, e, p, step_size=h, start_time=s)
                return jnp.sum(jnp.sin(r["a"] * 1.7)) + jnp.sum(r["b"] ** 2)
            x = (y0, p0, a, b)
            g = jax.jit(jax.grad(loss, argnums=(0, 1, 2, 3)))(*x)
            lj = jax.jit(loss)
            xs, un = jax.flatten_util.ravel_pytree(x)
            ep = 1e-4
            fd = [(lj(*un(xs.at[k].add(ep))) - lj(*un(xs.at[k].add(-ep)))) / (2 * ep) for k in range(xs.size)]
            return dict(ev="Adj", g=q(jax.flatten_util.ravel_pytree(g)[0], 1 << 16), fd=q(np.array(fd), 1 << 16), tol=24)
        guard(out, "adjoint", base, sens)
    return out


def misc(_):
    out = []
    for nm in ("Euler", "CG2", "CG3"):
        def tab():
            T = tableau(nm)
            return dict(ev="Tab", tab=nm, a=[ints(np.array(r) * D[nm]) for r in T.a], b=ints(np.array(T.b) * D[nm]), c=ints(np.array(T.c) * D[nm]), s=int(T.stages))
        guard(out, "tableau", dict(ep="t" + nm, key="tableau " + nm), tab)
    for k, (a, b) in enumerate([
            ([[0]], [10]), ([[0]], [9]), ([[1]], [10]), ([[0, 0], [5, 0]], [0, 10]), ([[0, 5], [0, 0]], [0, 10]), ([[0, 0], [5, 5]], [5, 5]),
            ([[0, 0], [5, 0]], [5, 6]), ([[0, 0, 0], [3, 0, 0], [0, 3, 0]], [5, 5, 0]), ([[0, 0, 0], [3, 0, 1], [0, 3, 0]], [5, 5, 0]),
            ([[0, 0, 1], [3, 0, 0], [0, 3, 0]], [5, 5, 0]), ([[0, 0, 0], [3, 0, 0], [0, 3, 2]], [-5, 15, 0])]):
        def built():
            try:
                cg.ButcherTableau([[v / 10 for v in r] for r in a], [v / 10 for v in b])
                ok = True
            except AssertionError:
                ok = False
            return dict(ev="Built", a=a, b=b, accepted=ok)
        guard(out, "tableau", dict(ep=f"b{k}", key=f"tableau a={a} b={b}"), built)
    rng = np.random.default_rng(5)
    for k, (t0, t1, h) in enumerate([(0, 3, 1), (0, 4, 3), (1, -2, 1), (0, 2, 5), (-3, 2, 2), (2, -2, 3)]):
        def sde():
            n = 3
            y, kk, s = rng.integers(-4, 5, (3, n))
            ts = [1.0, 0.25][k % 2]
            c = DiffraxConfig(solver=diffrax.Tsit5(), t_start=t0 * ts, t_end=t1 * ts, dt=h * ts)
            r = c.solve_sde(lambda t, y, a: a * jnp.ones(n), lambda t, y, a: jnp.asarray(s, float), jnp.asarray(y, float), jax.random.key(k),
                            jnp.asarray(kk / ts), noise_transform=lambda dw: jnp.ones_like(dw) + 0 * dw)
            return dict(ev="Sde", t0=t0, t1=t1, h=h, y=fl(y), k=fl(kk), s=fl(s), out=ints(r.ys[-1]))
        guard(out, "solve_sde", dict(ep=f"sde{k}", key=f"solve_sde {t0}->{t1} step {h}"), sde)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCStepper", cfg="MCStepper.cfg" if ctx.quick else "MCStepperDeep.cfg")
    cases = ctx.generate("MCStepper", cfg="MCStepperGen.cfg")
    rng = ctx.nprng("c15")
    pick = rng.permutation(len(cases))[: 144 if ctx.quick else len(cases)]
    todo = [(i, cases[j]) for i, j in enumerate(pick)]
    todo += [(len(todo) + i, c) for i, c in enumerate(long_cases(ctx.seed, 30 if ctx.quick else 300))]
    seen, gr = set(), []
    for c in cases:
        k = (c["t0"], c["t1"], c["h"])
        if k not in seen:
            seen.add(k)
            gr.append(c)
    gr = [(i, gr[j]) for i, j in enumerate(rng.permutation(len(gr))[: 24 if ctx.quick else len(gr)])]
    m = 12 if ctx.quick else 48
    ng = 8 if ctx.quick else 80
    g = 8 if ctx.quick else 20
    evs = ctx.pmap("checks.c15", "job", [("groups", list(range(j, ng, g))) for j in range(g)]
                   + [("runs", todo[j::m]) for j in range(m)] + [("grads", gr[j::4]) for j in range(4)]
                   + [("smooth", list(range(3 if ctx.quick else 24))), ("misc", 0)])
    ctx.validate("StepperTrace", evs, cfg="Trace.cfg", timeout=1500)
