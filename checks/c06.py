"""C06: ShapeInfo against the completion semantics of spec/ShapeInfo.tla."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from bijx.utils import ShapeInfo
from harness.core import err

NAMES = dict(e="event_shape", s="space_shape", c="channel_shape", ed="event_dim", sd="space_dim", cd="channel_dim")


def fact(f, s, c):
    return {"e": s + c, "s": s, "c": c, "ed": len(s + c), "sd": len(s), "cd": len(c)}[f]


def got(info):
    out = {}
    for f, n in NAMES.items():
        v = getattr(info, n)
        out[f] = [] if v is None else [list(map(int, v)) if isinstance(v, tuple) else int(v)]
    return out


def wrongs(full):
    """array shapes that do not end in the event shape"""
    out = set()
    for pos in range(len(full)):
        for d in (1, -1):
            w = list(full); w[pos] += d
            out |= {(3, *w), tuple(w)}
        w = list(full); w[pos] = 1
        out.add((full[pos], *w))                       # same number of entries
    out |= {(2, *p) for p in itertools.permutations(full)}
    for a, b in itertools.combinations(range(len(full)), 2):
        w = list(full); w[a], w[b] = w[a] * w[b], 1
        out.add((2, *w))
    out |= {full[1:], full + (1,), (int(np.prod(full)),), (2,) + full[:-1]}
    return sorted(w for w in out if w[len(w) - len(full):] != tuple(full) or len(w) < len(full))


def observe(cases):
    out = []
    for cs in cases:
        s, c, m = tuple(cs["s"]), tuple(cs["c"]), list(cs["m"])
        base = dict(s=list(s), c=list(c), m=m)
        key = f"space={s} channel={c} given={sorted(m)}"
        try:
            mk = lambda lists=False: ShapeInfo(**{NAMES[f]: (list(fact(f, s, c)) if lists and f in "esc" else fact(f, s, c)) for f in m})
            info = mk()
            twin = mk(lists=True)
            leaves, td = jax.tree_util.tree_flatten(info)
            back = jax.tree_util.tree_unflatten(td, leaves)
            other = ShapeInfo(event_shape=s + c + (7,), space_dim=len(s))
            out.append(dict(ev="Make", key=key, **base, got=got(info), same=bool(back == info and twin == info and not leaves),
                            hash=hash(info) == hash(twin) == hash(back), differs=not (info == other)))
            for b in cs["batches"]:
                b = tuple(b)
                ev = dict(ev="Proc", key=key + f" batch={b}", **base, b=list(b), err="", batch=[], got=got(info))
                try:
                    bs, i2 = info.process_event(b + s + c)
                    ev.update(batch=list(map(int, bs)), got=got(i2))
                except (RuntimeError, AssertionError) as ex:
                    ev["err"] = type(ex).__name__
                out.append(ev)
                if info.event_dim is None:
                    continue
                n = int(np.prod(b + s + c, dtype=int))
                x = jnp.arange(1, n + 1).reshape(b + s + c)
                y, bs, i2 = info.process_and_flatten(x)
                out.append(dict(ev="Flat", key=ev["key"], **base, b=list(b), fshape=list(y.shape), fbatch=list(bs),
                                fdata=np.asarray(y).ravel().tolist(), fgot=got(i2)))
                if info.space_dim is not None:
                    y, bs, i2 = info.process_and_canonicalize(x)
                    out.append(dict(ev="Canon", key=ev["key"], **base, b=list(b), cshape=list(y.shape), cbatch=list(bs),
                                    cdata=np.asarray(y).ravel().tolist(), cgot=got(i2)))
            if info.event_shape is not None and info.space_dim is not None and info.channel_dim is not None:
                out.append(dict(ev="Axes", key=key, **base, event=list(info.event_axes), space=list(info.space_axes), chan=list(info.channel_axes),
                                sizes=[int(info.event_size), int(info.space_size), int(info.channel_size)]))
            if info.event_shape:
                for wrong in wrongs(s + c):
                    ev = dict(ev="Reject", key=key + f" array={wrong}", **base, x=list(wrong), err="")
                    try:
                        info.process_event(wrong)
                    except Exception as ex:  # noqa: BLE001
                        ev["err"] = type(ex).__name__
                    out.append(ev)
        except Exception as ex:  # noqa: BLE001
            out.append(err("ShapeInfo", ex, key=key))
    return out


def run(ctx):
    cases = ctx.generate("ShapeInfo")
    rng = ctx.nprng("c06")
    batches = [[], [3], [2, 3], [1], [1, 2, 2]]
    if ctx.quick:
        keep = set(rng.choice(len(cases), 1200, replace=False).tolist())
        cases = [c for i, c in enumerate(cases) if i in keep]
    for i, c in enumerate(cases):
        c["batches"] = [batches[i % 5]] if ctx.quick else batches
    ctx.validate("ShapeInfoTrace", observe(cases), cfg="ShapeInfoTrace.cfg", timeout=1500)
