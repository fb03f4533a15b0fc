"""C23: embeddings, lattice features and networks against spec/Embed.tla and spec/Nets.tla."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

from bijx.nn import embeddings as E
from bijx.nn import features as F
from bijx.nn import nets
from checks.c18 import guard
from harness.core import ints, q, shape

U = 1 << 16
BSH = [(), (1,), (2,), (3,), (6,), (2, 2), (1, 3), (4,), (2, 1, 2), (2, 3)]
RANGES = [None, (0.0, 1.0), (-1.0, 3.0), (2.0, 2.5), (-4.0, -2.0), (0.0, 24.0)]


def embedding(c, how, r):
    n, rg = c["n"], RANGES[how % len(RANGES)]
    if c["k"] == "lin":
        return E.KernelLin(n, val_range=rg, rngs=r), rg, 1 / (4 * (n - 1))
    if c["k"] == "fourier":
        return E.KernelFourier(n, val_range=rg, rngs=r), rg, 1 / 120
    if c["k"] == "pos":
        top = 2.0 ** (c["b"] * (n // 2 - 1)) if n > 2 else [10000.0, 2.0, 1.0][how % 3]
        kw = {} if (top == 10000.0 and how % 2) else dict(max_positions=top)
        return E.PositionalEmbedding(n, append_input=c["append"], rngs=r, **kw), None, 2 * math.pi / 120 * (top if n > 2 else 1)
    sp = np.array([e * (n - 1) * math.log(2) for e in c["e"]])
    w = np.log(np.expm1(sp))
    ad = how % 3 != 0
    wf = float(w[0]) if c["one"] else jnp.asarray(w)
    kw = dict(norm=c["norm"], one_width=c["one"], adaptive_width=ad)
    if ad and how % 2:
        g = E.KernelGauss(n, val_range=rg, rngs=r, **kw)
        g.width_factor.value = jnp.broadcast_to(jnp.asarray(wf), g.width_factor.value.shape)
    else:
        g = E.KernelGauss(n, val_range=rg, width_factor=wf, rngs=r, **kw)
    return g, rg, 1 / (2 * (n - 1))


def reduce(k, S, how, r):
    S = jnp.asarray(S, float)
    if how % 2:
        def init(key, sh, dtype):
            assert tuple(sh) == S.shape
            return S.astype(dtype)
        return E.KernelReduced(k, S.shape[0], init=init, rngs=r)
    k = E.KernelReduced(k, S.shape[0], rngs=r)
    assert k.superposition.value.shape == S.shape
    k.superposition.value = S
    return k


def embeds(jobs):
    out = []
    for i, case, seed in jobs:
        c, reds, vals = case["emb"], case["reds"], case["vals"]
        rng = np.random.default_rng(seed + i)
        how = int(rng.integers(360))
        base = dict(ep=f"e{i}", key=f"{c['k']} {c['n']} reduced {[len(S) for S in reds]} built {how}")
        def go():
            k, rg, unit = embedding(c, how, nnx.Rngs(how))
            for j, S in enumerate(reds):
                k = reduce(k, S, how // 7 + j, nnx.Rngs(j))
            evs = []
            for r in range(3):
                bsh = BSH[int(rng.integers(len(BSH)))]
                B = int(np.prod(bsh, dtype=int))
                vs = [int(v) for v in rng.choice(vals, B)] if r else vals
                bsh = bsh if r else (len(vals),)
                t = np.array(vs) * unit
                x = t if rg is None else rg[0] + (rg[1] - rg[0]) * t
                x = x.reshape(bsh)
                x = float(x) if bsh == () and how % 2 else jnp.asarray(x)
                if r == 2 and bsh and np.all(np.asarray(x) == np.rint(x)):
                    x = jnp.asarray(np.rint(x), int)
                f = jax.jit(k) if r == 1 and how % 2 else jax.vmap(k) if r == 1 and bsh else k
                y = np.asarray(f(x))
                n = y.shape[-1]
                evs.append(dict(ev="Embed", emb=c, reds=reds, vals=vs, bshape=list(bsh), outs=[q(v, U) for v in y.reshape(-1, n)],
                                outshape=shape(y), count=int(k.feature_count)))
            return evs
        guard(out, "embedding", base, go)
    return out


def part(rng, C, small):
    if rng.random() < .5:
        return dict(k="poly", powers=[int(p) for p in rng.permutation(4 if small else 3)[: int(rng.integers(1, 4))]])
    n = int(rng.integers(1, 5))
    return dict(k="sin", freq=rng.integers(-9, 10, (C, n)).tolist())


def build(p, C, r):
    if p["k"] == "poly":
        return F.PolynomialFeatures(p["powers"], C, rngs=r), len(p["powers"])
    f = jnp.asarray(np.array(p["freq"]) * 2 * math.pi / 120)
    return F.FourierFeatures(f.shape[1], C, freq_init=lambda key, sh, *a: f.reshape(sh), rngs=r), f.shape[1]


def feats(jobs):
    out = []
    for i, seed in jobs:
        rng = np.random.default_rng(seed + i)
        C = int(rng.integers(1, 4))
        lat = [(3,), (2, 2), (1,), (2, 3), (4,), (2, 2, 2)][int(rng.integers(6))]
        parts = [part(rng, C, i % 2) for _ in range(1 + i % 3)]
        nest = i % 6 == 5
        base = dict(ep=f"n{i}", key=f"features {[p['k'] for p in parts]} of {C} channels on {lat}")
        def go():
            built = [build(p, C, nnx.Rngs(i)) for p in parts]
            m, nf = built[0][0] if len(parts) == 1 else None, sum(b[1] for b in built)
            if nest:
                m = F.ConcatFeatures([built[0][0], F.ConcatFeatures([b[0] for b in built[1:]])])
            elif m is None:
                m = F.ConcatFeatures([b[0] for b in built], rngs=nnx.Rngs(0))
            evs = []
            V = int(np.prod(lat))
            for r in range(4):
                B = int(rng.integers(1, 4))
                x = rng.integers(-3, 4, (B, V, C))
                if all(p["k"] == "sin" for p in parts):
                    x = rng.integers(-70, 71, (B, V, C))
                W = rng.integers(-2, 3, (C, nf, C))
                mask = rng.integers(0, 2, V) if r % 2 else np.ones(V, int)
                flat = r < 2
                lc = jnp.asarray(W.reshape(C * nf, C) if flat else W.swapaxes(1, 2), float)
                if flat and i % 2:
                    lc = jnp.asarray(W, float)
                kw = {} if flat and i % 3 else dict(flatten_features=flat)
                if r % 2:
                    mk = mask.reshape(lat)
                    kw["mask"] = jnp.asarray(mk, [bool, float, int][i % 3])
                f = lambda v: m(v, lc, **kw)
                y, d = (jax.jit(f) if r == 3 else f)(jnp.asarray(x.reshape((B, *lat, C)), float))
                evs.append(dict(ev="Feat", parts=parts, w=W.tolist(), mask=mask.tolist(), x=x.tolist(), feats=[[q(s, U) for s in b] for b in np.asarray(y).reshape(B, V, -1)],
                                divs=q(d, U), divshape=shape(d), outshape=shape(y), want=[B, *lat, C * nf] if flat else [B, *lat, C, nf], count=int(m.out_channel_size)))
            return evs
        guard(out, "features", base, go)
    return out


ACT = dict(id=lambda x: x, relu=nnx.relu, wrap=lambda x: jnp.mod(x + 3, 7) - 3, neg=lambda x: -x, sq=lambda x: jnp.mod(x, 5) ** 2 - 2)


def network(n, how, r, drop=0.0):
    L, a, fin = n["layers"], ACT[n["act"]], ACT[n["final"]]
    ws = [np.array(k["w"], float) for k in L]
    bs = [np.array(k["b"], float) for k in L]
    if n["k"] == "conv":
        ws = [w.reshape(*n["taps"], *w.shape[1:]) for w in ws]
    given = dict(final_kernel_init=lambda key, sh, *d: jnp.asarray(ws[-1]).reshape(sh), final_bias_init=lambda key, sh, *d: jnp.asarray(bs[-1]).reshape(sh)) if how % 2 else {}
    i, o, hid = n["in"], len(bs[-1]), [len(b) for b in bs[:-1]]
    if n["k"] == "mlp":
        m, given = nets.MLP(i, o, hid, activation=a, final_activation=fin, rngs=r), {}
        ls = list(m.layers)
    elif n["k"] == "res":
        m = nets.ResNet(i, o, hid[0], len(L) - 2, activation=a, final_activation=fin, dropout=drop, rngs=r, **given)
        ls = [m.first_layer, *m.hidden_layers, m.final_layer]
    else:
        m = nets.ConvNet(i, o, tuple(n["taps"]), hid, activation=a, final_activation=fin, rngs=r, **given)
        ls = list(m.conv_layers)
    assert len(ls) == len(L), "number of layers"
    for j, y in enumerate(ls[:-1] if given else ls):
        assert y.kernel.value.shape == ws[j].shape and y.bias.value.shape == bs[j].shape, "layer shapes"
        y.kernel.value, y.bias.value = jnp.asarray(ws[j]), jnp.asarray(bs[j])
    return m


def runs(jobs):
    out = []
    for i, case, seed in jobs:
        n = case["net"]
        rng = np.random.default_rng(seed + i)
        how = int(rng.integers(100))
        base = dict(ep=f"w{i}", key=f"{n['k']} {n['in']}->{[len(k['b']) for k in n['layers']]} {n['act']} {n['final']} built {how}")
        def go():
            evs = []
            lat, C, o = n["lat"], n["in"], len(n["layers"][-1]["b"])
            V = int(np.prod(lat, dtype=int))
            hidden = len(n["layers"]) - 2
            width = len(n["layers"][0]["b"])
            modes = ["plain", "jit"] + (["eval", "train", "train"] if n["k"] == "res" and width * hidden <= 6 else [])
            for mode in modes:
                m = network(n, how, nnx.Rngs(how), 0.5 if mode in ("eval", "train") else 0.0)
                if mode == "eval":
                    m.eval()
                bsh = BSH[int(rng.integers(len(BSH)))]
                B = int(np.prod(bsh, dtype=int))
                x = rng.integers(-3, 4, (B, V, C))
                v = jnp.asarray(x.reshape((*bsh, *lat, C)), float)
                y = (nnx.jit(lambda m, v: m(v)) if mode == "jit" else lambda m, v: m(v))(m, v)
                ys = np.asarray(y).reshape(B, V, -1)
                evs.append(dict(ev="Net", net=n, xs=x.tolist(), ys=[[ints(s) for s in b] for b in ys], train=mode == "train", outshape=shape(y), want=[*bsh, *lat, o]))
            return evs
        guard(out, "network", base, go)
    return out


def defaults(jobs):
    """Networks and embeddings as they are built without further arguments."""
    out = []
    for i, seed in jobs:
        rng = np.random.default_rng(seed + i)
        a, b = (int(v) for v in rng.integers(1, 5, 2))
        bsh = BSH[int(rng.integers(len(BSH)))]
        base = dict(ep=f"d{i}", key=f"default network {i % 6} {a}->{b} on {bsh}")
        def go():
            r = nnx.Rngs(i)
            if i % 6 < 2:
                m, site, sh = [lambda: nets.MLP(a, b, rngs=r), lambda: nets.ResNet(a, b, rngs=r)][i % 6](), (), (a,)
            elif i % 6 < 4:
                m = nets.MLP(a, b, [3] * (1 + i % 4), rngs=r) if i % 6 == 2 else nets.ResNet(a, b, 5, 1 + i % 4, dropout=.25, activation=nnx.relu, rngs=r)
                site, sh = (), (a,)
            else:
                site = tuple(int(v) for v in rng.integers(2, 6, 2))
                m = nets.ConvNet(a, b, rngs=r) if i % 6 == 4 else nets.ConvNet(a, b, hidden_channels=[3], kernel_size=(1 + 2 * (i % 2), 3), rngs=r)
                sh = (*site, a)
            y = m(jnp.asarray(rng.normal(size=(*bsh, *sh))))
            return dict(ev="Shape", ys=q(y), outshape=shape(y), want=[*bsh, *site, b])
        guard(out, "default network", base, go)
    return out


def job(a):
    return globals()[a[0]](a[1])


def run(ctx):
    ctx.model("MCEmbed", "MCEmbed.cfg" if ctx.quick else "MCEmbedDeep.cfg")
    ctx.model("MCNets", "MCNets.cfg" if ctx.quick else "MCNetsDeep.cfg")
    N = (240, 160, 96, 24) if ctx.quick else (4000, 2500, 1500, 240)
    cases = ctx.generate("MCEmbed", cfg="MCEmbedSim.cfg", extra=("-simulate", f"num={N[0]}", "-depth", "20", "-seed", str(ctx.seed + 3)))
    nc = ctx.generate("MCNets", cfg="MCNetsSim.cfg", extra=("-simulate", f"num={N[1]}", "-depth", "16", "-seed", str(ctx.seed + 5)))
    s = ctx.seed * 1000
    m = 8
    ex = [(i, c, s) for i, c in enumerate(cases)]
    nn = [(i, c, s) for i, c in enumerate(nc)]
    jobs = []
    for j in range(m):
        jobs += [("embeds", ex[j::m]), ("runs", nn[j::m]), ("feats", [(i, s) for i in range(N[2])][j::m]), ("defaults", [(i, s) for i in range(N[3])][j::m])]
    ctx.validate("EmbedTrace", ctx.pmap("checks.c23", "job", jobs), cfg="Trace.cfg")
