"""C10: IMH steps against spec/IMH.tla."""
import math
from unittest import mock

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx.mcmc import IMHState
from harness.core import NANV, err, ints, q1

L2 = math.log(2)
NI = -1000000


class Discrete(bijx.Distribution):
    """Points 1..n with proposal weights 2^Q; picked uniformly (the sampler is
    free to claim any density) through one uniform draw of the given key."""

    def __init__(self, Q):
        super().__init__(nnx.Rngs(0))
        self.Q = nnx.Variable(jnp.asarray(Q, float))

    def sample(self, batch_shape=(), rng=None, **kw):
        rng = self._get_rng(rng)
        Q = self.Q.get_value()
        i = jnp.floor(jax.random.uniform(rng, batch_shape) * len(Q)).astype(int)
        return {"id": i + 1, "v": jnp.stack([10.0 * (i + 1), -(i + 1.0)], -1)}, Q[i] * L2

    def get_batch_shape(self, x):
        return jnp.shape(x["id"])

    def log_density(self, x, **kw):
        return self.Q.get_value()[x["id"] - 1] * L2


def lg(v):
    v = float(v) / L2
    if v == -math.inf:
        return NI
    return int(round(v)) if v == v and abs(v) < 1e6 and abs(v - round(v)) < 1e-6 else NANV


def st(s):
    i = int(s.position["id"])
    return dict(i=i, pos=[i] + ints(s.position["v"]), t=lg(s.log_prob_target), q=lg(s.log_prob_proposal))


LO, HI = -9, 2


def target(T):
    T = jnp.asarray([-jnp.inf if t == NI else t for t in T], float)
    return lambda x: T[x["id"] - 1] * L2


def ladder_fn(sampler):
    """accept vector of one key over the ladder, for three decompositions"""
    def go(key, prop):
        def one(k, how):
            # ratio = t' - q' - t + q = k
            t1, q1_ = prop
            t = jnp.where(how == 0, t1 - q1_ - k * L2, jnp.where(how == 1, t1 - k * L2 + 3 * L2, 5 * L2 - k * L2))
            q = jnp.where(how == 0, 0.0, jnp.where(how == 1, q1_ + 3 * L2, 5 * L2 - t1 + q1_))
            s = IMHState({"id": jnp.array(0), "v": jnp.zeros(2)}, t, q)
            ns, info = sampler.step(key, s)
            return info.is_accepted, info.accept_prob, ns.position["id"], info.proposal.position["id"]
        ks = jnp.arange(LO, HI + 1) * 1.0
        return jax.vmap(lambda how: jax.vmap(lambda k: one(k, how))(ks))(jnp.arange(3))
    return jax.jit(jax.vmap(go, in_axes=(0, 0)))


def proposal_of(sampler, keys):
    """proposals are a function of the key: read them off a first step"""
    def go(k):
        s = IMHState({"id": jnp.array(0), "v": jnp.zeros(2)}, jnp.array(0.0), jnp.array(0.0))
        _, info = sampler.step(k, s)
        return info.proposal.log_prob_target, info.proposal.log_prob_proposal
    return jax.jit(jax.vmap(go))(keys)


def measure(T, Q, keys):
    smp = bijx.IMH(Discrete(Q), target(T))
    t, q = proposal_of(smp, keys)
    return [np.asarray(a) for a in ladder_fn(smp)(keys, (t, q))]


class Fixed(bijx.Distribution):
    """always proposes the same point, without using randomness"""

    def __init__(self):
        super().__init__(nnx.Rngs(0))

    def sample(self, batch_shape=(), rng=None, **kw):
        return {"id": jnp.array(1), "v": jnp.array([10.0, -1.0])}, jnp.array(-2 * L2)


def scripted(seed):
    """decisions for scripted draws, when the step asks jax.random.uniform for
    one scalar (otherwise the draw cannot be scripted and nothing is judged)"""
    smp = bijx.IMH(Fixed(), lambda x: jnp.array(3 * L2))
    key = jax.random.key(seed)
    out = []

    def decide(u, k, how=0):
        calls = []

        def fake(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
            calls.append(tuple(shape))
            return jnp.full(shape, u) * (maxval - minval) + minval
        # ratio = 3 - (-2) - t + q
        t = (5 - k) * L2 if how == 0 else -7 * L2
        q = 0.0 if how == 0 else (k - 12) * L2
        with mock.patch("jax.random.uniform", fake):
            _, info = smp.step(key, IMHState({"id": jnp.array(0), "v": jnp.zeros(2)}, jnp.array(t), jnp.array(q)))
        return bool(info.is_accepted), calls
    lo, calls = decide(0.25, -1)
    hi, _ = decide(0.75, -1)
    if calls != [()] or lo == hi:
        return out
    for k in (-45, -40, -30, -21, -20, -10, -3, -1, 0, 2):
        levs, acc = [], []
        for j in (1, 2, 3, 4, 10, 11, 12, 20, 21, 22, 23, 30, 31, 40, 41, 44, 45, 46, 50):
            u = 1.5 * 2.0 ** -j
            for how in (0, 1):
                levs.append(1 - j)
                acc.append(decide(u if lo else 1 - u, k, how)[0])
        out.append(dict(ev="Script", key=f"scripted draws ratio=2^{k}", k=k, levs=levs, acc=acc))
    return out


def observe(job):
    if job[0] == "script":
        try:
            return scripted(job[1])
        except Exception as ex:  # noqa: BLE001
            return [err("IMH scripted", ex, key="scripted", ep="script")]
    kind, tabs, seed, n, mode = job
    T, Q = tabs
    key0 = f"{kind} T={T} Q={Q}"
    out = []
    rng = np.random.default_rng(seed)
    try:
        if kind == "ladder":
            keys = jax.random.split(jax.random.key(seed), n)
            acc, ap, new, prop = measure(T, Q, keys)
            for j in range(min(n, 200)):
                out.append(dict(ev="Ladder", key=key0, lo=LO, acc=acc[j, 0].tolist(), acc2=acc[j, 1].tolist(), acc3=acc[j, 2].tolist(),
                                ap=[q1(v) for v in ap[j, 0]]))
            for k in range(1, 5):
                col = acc[:, 0, -k - LO]
                out.append(dict(ev="Count", key=key0 + f" k={k}", n=n, k=k, hits=int(col.sum()), dev=int(6 * math.sqrt(n * 2.0 ** -k)) + 1))
                for p in range(1, len(Q) + 1):
                    sel = prop[:, 0, 0] == p
                    m = int(sel.sum())
                    out.append(dict(ev="Count", key=key0 + f" k={k} given proposal {p}", n=m, k=k, hits=int(col[sel].sum()),
                                    dev=int(6 * math.sqrt(max(m, 1) * 2.0 ** -k)) + 1))
            return out
        smp = bijx.IMH(Discrete(Q), target(T))
        for c in range(n):
            ep = f"{seed}.{c}"
            keys = jax.random.split(jax.random.key(seed * 1000 + c), 12)
            if mode == "buffered":
                lev = [99] * len(keys)
                cs = bijx.IMH(bijx.BufferedSampler(Discrete(Q), buffer_size=4), target(T))
                step = nnx.jit(lambda s, k, x: s.step(k, x))
                init = nnx.jit(lambda s, k: s.init(k))
            else:
                acc = measure(T, Q, keys)[0]
                # smallest accepted k, offset by the ladder start
                lev = [int(LO + np.argmax(a[0])) if a[0].any() else 98 for a in acc]
                lev = [99 if v == LO else v for v in lev]
                cs = smp
                step = (lambda s, k, x: s.step(k, x)) if mode == "eager" else nnx.jit(lambda s, k, x: s.step(k, x))
                init = (lambda s, k: s.init(k)) if mode == "eager" else nnx.jit(lambda s, k: s.init(k))
            out.append(dict(ev="Chain", ep=ep, key=key0 + " " + mode, T=list(T), Q=list(Q)))
            s = init(cs, keys[0])
            out.append(dict(ev="Begin", ep=ep, key=key0 + " " + mode, s=st(s)))
            for j in range(1, len(keys)):
                old = st(s)
                s, info = step(cs, keys[j], s)
                out.append(dict(ev="Step", ep=ep, key=key0 + " " + mode, lev=lev[j], old=old, prop=st(info.proposal),
                                acc=bool(info.is_accepted), ap=q1(info.accept_prob), s=st(s)))
    except Exception as ex:  # noqa: BLE001
        out.append(err("IMH", ex, key=key0, ep=f"{seed}.e"))
    return out


def run(ctx):
    ctx.model("MCIMH")
    rng = ctx.nprng("c10")

    def table(zeros):
        n = int(rng.integers(2, 6))
        T = [int(v) for v in rng.integers(-5, 4, size=n)]
        Q = [int(v) for v in rng.integers(-4, 1, size=n)]
        if zeros:
            T[int(rng.integers(n))] = NI
        return T, Q
    jobs = []
    m = 1 if ctx.quick else 6
    for i in range(3 * m):
        jobs.append(("ladder", table(False), ctx.seed * 100 + i, 4096, ""))
    for i in range(6 * m):
        jobs.append(("chain", table(i % 2 == 0), ctx.seed * 100 + 50 + i, 3 if ctx.quick else 8, ["jit", "eager", "buffered"][i % 3]))
    jobs.append(("script", ctx.seed))
    ctx.validate("IMHTrace", ctx.pmap("checks.c10", "observe", jobs), cfg="Trace.cfg")
