"""C09: buffered samplers - histories generated from spec/Buffered.tla are
replayed into bijx.BufferedSampler and the recorded histories are validated
against the same state machine (spec/BufferedTrace.tla)."""
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from harness.core import err, q, q1, shape


class Numbered(bijx.Distribution):
    """A source whose i-th sample of its c-th call is visibly (c, i)."""

    def __init__(self, event, tree=False):
        super().__init__(nnx.Rngs(0))
        self.event = event
        self.tree = tree
        self.count = nnx.Variable(jnp.array(0))

    def sample(self, batch_shape=(), rng=None, offset=0, **kw):
        self.count.set_value(self.count.get_value() + 1)
        c = self.count.get_value()
        m = int(np.prod(batch_shape, dtype=int))
        ids = (c * 1000 + 1 + jnp.arange(m)).reshape(batch_shape).astype(float)
        size = int(np.prod(self.event, dtype=int))
        x = ids[(...,) + (None,) * len(self.event)] + jnp.arange(size).reshape(self.event) * 100 + offset
        ld = -ids / 8
        if self.tree:
            return {"a": x, "b": ids * 2}, ld
        return x, ld

    def get_batch_shape(self, x):
        x = x["a"] if self.tree else x
        s = jnp.shape(x)
        return s[: len(s) - len(self.event)]

    def log_density(self, x, **kw):
        bs = self.get_batch_shape(x)
        x = x["a"] if self.tree else x
        ids = x.reshape(bs + (-1,))[..., 0]
        return -ids / 8


U = 1 << 14


def flat(x):
    return [v for leaf in jax.tree.leaves(x) for v in q(leaf, U)]


def first(x):
    return jax.tree.leaves(x)[0]


def table_numbered(n, event, tree, calls, sizes, offset=0):
    """What call c of the source produces, from its definition."""
    tab = []
    size = int(np.prod(event, dtype=int))
    for c in range(1, calls + 1):
        m = sizes[c - 1]
        rows = []
        for i in range(m):
            ident = c * 1000 + 1 + i
            x = (ident + np.arange(size) * 100 + offset).tolist()
            if tree:
                x = x + [ident * 2]
            rows.append(dict(x=[q1(v, U) for v in x], ld=q1(-ident / 8, U)))
        tab.append(rows)
    return tab


def call_sizes(n, word, bsizes):
    sizes, left, ib = [], n, 0
    for w in word:
        if w == "B":
            sizes.append(bsizes[ib]); ib += 1
        else:
            if left == n:
                sizes.append(n); left = 0
            left += 1
    return sizes


def run_word(ep, n, word, event, tree, mode, bshapes, offset=0, real=None, explicit_key=None):
    evs = []
    key = f"word={''.join(word)} n={n} event={event} tree={tree} mode={mode}"
    nb = [bshapes[i % len(bshapes)] for i in range(word.count("B"))]
    bsizes = [int(np.prod(s, dtype=int)) for s in nb]
    sizes = call_sizes(n, word, bsizes)
    if real is None:
        src = Numbered(event, tree)
        tab = table_numbered(n, event, tree, len(sizes), sizes, offset)
    else:
        src = real()
        twin = real()
        tab, ib, left, ci = [], 0, n, 0
        for w in word:
            bs = None
            if w == "B":
                bs = nb[ib]; ib += 1
            else:
                if left == n:
                    bs = (n,); left = 0
                left += 1
            if bs is not None:
                x, ld = twin.sample(bs, rng=None if explicit_key is None else jax.random.key(explicit_key + ci))
                ci += 1
                m = int(np.prod(bs, dtype=int))
                xf = np.asarray(x).reshape((m, -1)); lf = np.asarray(ld).reshape(m)
                tab.append([dict(x=q(xf[i], U), ld=q1(lf[i], U)) for i in range(m)])
    evs.append(dict(ev="New", ep=ep, key=key, n=n, tab=tab))
    kw = {"offset": offset} if offset else {}
    try:
        s = bijx.BufferedSampler(src, buffer_size=n)
        if mode == "jit":
            single = nnx.jit(lambda m: m.sample(**kw))
            batch = nnx.jit(lambda m, bs: m.sample(bs, **kw), static_argnums=1)
        else:
            single = lambda m: m.sample(**kw)
            batch = lambda m, bs: m.sample(bs, **kw)
        ib, left, ci = 0, n, 0
        for w in word:
            if explicit_key is not None:
                # a key is consumed by the call that reaches the source
                k = jax.random.key(explicit_key + ci)
                single = lambda m, k=k: m.sample(rng=k, **kw)
                batch = lambda m, bs, k=k: m.sample(bs, rng=k, **kw)
            if w == "S":
                if left == n:
                    left = 0; ci += 1
                left += 1
                x, ld = single(s)
                evs.append(dict(ev="Single", ep=ep, key=key, s=dict(x=flat(x), ld=q1(ld, U) if np.ndim(ld) == 0 else 0),
                                xshape=shape(first(x)), eshape=list(event), ldshape=shape(ld),
                                calls=int(s.dist.count.get_value()) if real is None else -1))
            else:
                bs = nb[ib]; ib += 1; ci += 1
                x, ld = batch(s, bs)
                m = int(np.prod(bs, dtype=int))
                leaves = [np.asarray(a).reshape((m, -1)) for a in jax.tree.leaves(x)]
                lf = np.asarray(ld).reshape(m)
                ss = [dict(x=[v for a in leaves for v in q(a[i], U)], ld=q1(lf[i], U)) for i in range(m)]
                evs.append(dict(ev="Batch", ep=ep, key=key, ss=ss, bshape=list(bs),
                                xshape=shape(first(x)), eshape=list(event), ldshape=shape(ld),
                                calls=int(s.dist.count.get_value()) if real is None else -1))
        x, _ = src.sample((3,))
        evs.append(dict(ev="Dens", ep=ep, key=key, got=q(s.log_density(x), U), want=q(src.log_density(x), U)))
        evs.append(dict(ev="Dens", ep=ep, key=key, got=list(s.get_batch_shape(x)), want=[3]))
    except Exception as e:  # noqa: BLE001
        evs.append(err("BufferedSampler", e, ep=ep, key=key))
    return evs


def observe(job):
    out = []
    for ep, kw in job:
        kw = dict(kw)
        r = kw.pop("real", None)
        if r is not None:
            ev = kw["event"]
            if r == "normal":
                kw["real"] = lambda: bijx.IndependentNormal(event_shape=tuple(ev), rngs=nnx.Rngs(7))
            elif r == "uniform":
                kw["real"] = lambda: bijx.IndependentUniform(event_shape=tuple(ev), rngs=nnx.Rngs(8))
            else:
                def mk():
                    b = bijx.AffineLinear(rngs=nnx.Rngs(3))
                    b.scale.set_value(jnp.array(2.0)) if hasattr(b.scale, "set_value") else None
                    return bijx.Transformed(bijx.IndependentNormal(event_shape=tuple(ev), rngs=nnx.Rngs(9)), b)
                kw["real"] = mk
        out += run_word(ep, **kw)
    return out


def run(ctx):
    cases = ctx.generate("Buffered")
    rng = ctx.nprng("c09")
    jobs, ep = [], 0

    def add(**kw):
        nonlocal ep
        ep += 1
        jobs.append((ep, kw))

    bsh = [[(2,), (1,)], [(2, 3), (1,)], [(1, 2), (3,)], [(1,), (1, 1)]]
    sel = list(range(len(cases)))
    if ctx.quick:
        sel = sorted(rng.choice(len(cases), 36, replace=False).tolist())
    events = [(), (2,), (2, 3)]
    for k, i in enumerate(sel):
        c = cases[i]
        mode = "eager" if k % 3 == 0 else "jit"
        add(n=c["n"], word=c["word"], event=events[k % 3], tree=(k % 5 == 4), mode=mode, bshapes=bsh[k % 4],
            offset=7 if k % 7 == 3 else 0)
    # long histories, larger buffers
    for k, n in enumerate([5, 7, 16]):
        word = ["S" if rng.random() < 0.9 else "B" for _ in range(2 * n + 9 if ctx.quick else 6 * n + 5)]
        add(n=n, word=word, event=(2,), tree=False, mode="jit", bshapes=[(2,), (3, 2)])
    # library distributions; their own key stream, or explicit keys
    for k, (r, e) in enumerate([("normal", (3,)), ("uniform", (2, 2)), ("transformed", (2,)), ("normal", ())]):
        for n, w in [(3, "SSSSBSSSS"), (2, "BSSSSS"), (1, "SSBS")]:
            add(n=n, word=list(w), event=e, tree=False, mode=["jit", "eager"][k % 2], bshapes=[(2,)], real=r)
        add(n=3, word=list("SSSSSBSS"), event=e, tree=False, mode="eager", bshapes=[(2, 2)], real=r, explicit_key=11)
    parts = [jobs[i::6] for i in range(6)]
    evs = [e for part in [ctx.pmap("checks.c09", "observe", parts)] for e in part]
    ctx.validate("BufferedTrace", evs, cfg="Trace.cfg")
