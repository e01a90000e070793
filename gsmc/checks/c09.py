"""C09: indexing selects exactly the rows that plain-array indexing selects."""
import itertools

import numpy as np

from gsmc.core import need
from gsmc.data import ATTRS, KS, gsdata, npy, plain_of, same, snapshot, unique
from gsmc.routes import ROUTES, build
from gsmc.thist import tensor

LEVEL = "exploration"
RULE = ("Exhaustive product of container x construction route x SH degree x mask kind x scene size x index, every cell of the scene carrying its own "
        "value. A case is one index applied through every selection method it is valid for (indexing, copying slice, single-Gaussian access, "
        "conversion with a mask) and compared bit for bit with the same index applied to plain arrays, or required to be rejected. Distinct = "
        "(container, route, degree, mask kind, size, index, method); non-trivial when the index selects at least one row or must be rejected.")
BOUND = {
    "quick": "array container: 24 routes x 4 mask kinds x sizes 0..4 (5 for degree 1): every slice with start/stop in {None,-n-1..n+1} and 12 steps, every int in "
             "-n-2..n+1, every index list of length <=2, every boolean mask, in 4 forms each, wrong lengths; tensor container: the same from 8 routes; every "
             "pair of successive selections for n=4 from 3 routes each; sizes 130, 257, 5000, 10,007, 33,000, 65,537, 100,003 with structured indices, index arrays of 9 number types",
    "thorough": "sizes to 6, index lists of length <=3, all degrees on every size; every pair of selections for n=5 from 6 routes; sizes to 70000",
}
ASSUMPTIONS = ["integer indices are Python ints, index lists hold ints, masks are boolean (NumPy integer scalars, uint8 and 0-d or 2-D integer arrays are outside the "
               "documented index types)", "a torch tensor cannot represent a negative-step view: a tensor scene may reject such a slice (it must not return other rows)"]
WARM = ["np", "t"]
MASKS = ("none", "1d", "2", "2n")
NPR = ROUTES + ("file_masks",)
TR = ("ctor", "none", "cons", "slice", "slice_cons", "step_cons", "mask_cons", "from_np", "from_np_cons", "double")


def scene(n, k, masks, labels=("ply", "ply", "sh")):
    p = unique(n, k, 3)
    p.labels = labels
    if masks != "none":
        L = 1 if masks == "1d" else 2
        p.masks = np.stack([np.arange(n) % 2 == 1, np.arange(n) % 3 != 1][:L], 1)
        if masks == "2n":
            p.names = ["a", "b"]
    return p


def make(ctx, cont, route, p, masks):
    import gsply
    import torch
    q = p.copy()
    q.masks = q.names = None
    if cont == "np":
        g = build("file" if route == "file_masks" else route, q, ctx)
        if p.masks is not None:
            g.masks = (p.masks[:, 0] if masks == "1d" else p.masks).copy()
            g.mask_names = None if p.names is None else list(p.names)
        return g
    from gsmc.routes import interleave, pad
    if route in ("ctor", "none", "cons"):
        t = tensor(q, route == "cons", route == "none")
    elif route in ("slice", "slice_cons"):
        b, s = pad(q, 2, 3)
        t = tensor(b, route.endswith("cons"))[s]
    elif route == "step_cons":
        t = tensor(interleave(q), True)[::2]
    elif route == "mask_cons":
        b, s = pad(q, 1, 2)
        m = torch.zeros(len(b), dtype=torch.bool)
        m[s] = True
        t = tensor(b, True)[m]
    elif route.startswith("from_np"):
        g = gsdata(q)
        t = gsply.GSTensor.from_gsdata(g.consolidate() if route.endswith("cons") else g, device="cpu")
    else:
        t = tensor(q, True).double()
    if p.masks is not None:
        m = torch.from_numpy(p.masks.copy())
        t.masks = m[:, 0].clone() if masks == "1d" else m
        t.mask_names = None if p.names is None else list(p.names)
    return t


# --- keys (JSON-able) ---------------------------------------------------------------------------

def slices(n, steps):
    r = [None] + list(range(-n - 1, n + 2))
    for a, b in itertools.product(r, r):
        for c in steps:
            yield {"s": [a, b, c]}


STEPS = (None, 1, 2, 3, 5, 6, -1, -2, -3, -4, -6, 0)
IFORMS = {"np": ("list", "i64", "i32", "strided"), "t": ("list", "i64", "t64", "strided")}
MFORMS = {"np": ("arr", "list", "nplist", "strided"), "t": ("arr", "list", "t", "strided", "nplist")}


NARROW = {"i32": np.int32, "i8": np.int8, "i16": np.int16, "u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "u64": np.uint64, "be": ">i8"}


def keys(n, cont, maxl, full=True):
    yield from slices(n, STEPS)
    for i in range(-n - 2, n + 2):
        yield {"i": i}
    for L in range(maxl + 1):
        for ix in itertools.product(range(-n - 1, n + 1), repeat=L):
            fs = IFORMS[cont] if L <= 2 and (n <= 3 or L <= 1) else IFORMS[cont][hash_small(ix) % 4:][:1]
            for f in fs:
                yield {"l": list(ix), "as": f}
    for m in itertools.product((0, 1), repeat=n):
        for f in MFORMS[cont]:
            yield {"m": list(m), "as": f}
    for w in (n - 1, n + 1, 2 * n + 1, 0):
        if w >= 0 and w != n:
            for f in MFORMS[cont]:
                if not (w == 0 and f in ("list", "nplist")):
                    yield {"m": [1] * w, "as": f}
    yield {"m2": n}


def hash_small(ix):
    return sum((j + 2) * v for j, v in enumerate(ix))


def real(key, cont):
    """The index object handed to the library."""
    import torch
    if "s" in key:
        return slice(*key["s"])
    if "i" in key:
        return key["i"]
    if "m2" in key:
        m = np.ones((key["m2"], 1), bool)
        return torch.from_numpy(m) if cont == "t" else m
    v, f = key.get("l", key.get("m")), key["as"]
    if "l" in key:
        if f == "list":
            return list(v)
        if f in ("t64", "t32"):
            return torch.tensor(v, dtype=torch.int64 if f == "t64" else torch.int32)
        a = np.array(v, NARROW.get(f, np.int64))
    else:
        if f == "list":
            return [bool(x) for x in v]
        if f == "nplist":
            return [np.bool_(x) for x in v]
        a = np.array(v, bool)
        if f == "t":
            return torch.from_numpy(a)
    if f == "strided":
        b = np.zeros(2 * len(a) + 1, a.dtype)
        b[::2][:len(a)] = a
        a = b[::2][:len(a)]
        if cont == "t" and "m" in key:
            a = torch.from_numpy(a)
    return a


def model(key, n):
    """Selected row numbers, or None when the index must be rejected."""
    r = np.arange(n)
    if "s" in key:
        return None if key["s"][2] == 0 else r[slice(*key["s"])]
    if "i" in key:
        return r[[key["i"]]] if -n <= key["i"] < n else None
    if "m2" in key:
        return None
    if "m" in key:
        return r[np.array(key["m"], bool)] if len(key["m"]) == n else None
    return r[key["l"]] if all(-n <= x < n for x in key["l"]) and key["l"] else (r[:0] if not key["l"] else None)


def rejected(f, what):
    try:
        f()
    except (ValueError, IndexError):
        return
    except TypeError:
        return
    need(False, f"not-rejected:{what}", f"{what} was accepted")


def rows_equal(tup, p, i, what):
    vals = [getattr(p, a)[i] for a in ATTRS]
    need(isinstance(tup, tuple) and len(tup) == 7, f"{what}:tuple", f"{type(tup)}")
    for a, x, y in zip(ATTRS, tup, vals):
        if x is None and a == "shN" and y.size == 0:
            continue
        x = npy(x)
        need(x is not None and x.shape == y.shape and bool(np.all(x == y)), f"{what}:{a}", lambda: f"{a} {x} expected {y}")
    m = tup[6]
    if p.masks is None:
        need(m is None, f"{what}:masks", "mask row without masks")
    else:
        need(m is not None and bool((np.atleast_1d(npy(m)) == p.masks[i]).all()), f"{what}:masks", f"{m} expected {p.masks[i]}")


def kind(key):
    if "s" in key:
        c = key["s"][2]
        return "slice" + ("" if c in (None, 1) else "-step" if (c or 0) > 0 else "-negative-step" if c else "-zero-step")
    return {"i": "int", "l": "list", "m": "mask", "m2": "mask2d"}[next(iter(key))]


def one(ctx, cont, g, p, key, dt, aliasing=False):
    """One index through every selection method."""
    import gsply
    n = len(p)
    idx, kk = model(key, n), kind(key)
    k = real(key, cont)
    ctx.evaluations += 1
    if idx is None:
        rejected(lambda: g[k], f"[{kk}]")
        if cont == "np":
            rejected(lambda: g.copy_slice(k), f"copy_slice({kk})")
        if kk == "int":
            rejected(lambda: g.get_gaussian(k), "get_gaussian")
        if kk == "mask" and cont == "t":
            m = npy(k) if not isinstance(k, list) else np.array(k)
            rejected(lambda: gsply.GSTensor.from_gsdata(gsdata(p), device="cpu", mask=m), "from_gsdata(mask)")
        return
    want = p.take(idx)
    if kk == "int":
        rows_equal(g[k], p, int(idx[0]), "[int]")
        same(plain_of(g.get_gaussian(k)), want, "get_gaussian", dtype=dt)
        if cont == "np":
            same(plain_of(g.copy_slice(k)), want, "copy_slice(int)", dtype=dt)
        return
    if cont == "t" and kk == "slice-negative-step":
        try:
            r = g[k]
        except ValueError:
            return
    else:
        r = g[k]
    need(type(r) is type(g), f"[{kk}]:type", lambda: f"{type(r)}")
    same(plain_of(r), want, f"[{kk}]", dtype=dt)
    need(len(r) == len(want), f"[{kk}]:len")
    need(r.format_state == g.format_state, f"[{kk}]:format", lambda: f"{r.format_state} from {g.format_state}")
    if cont == "np":
        c = g.copy_slice(k)
        same(plain_of(c), want, f"copy_slice({kk})", dtype=dt)
        need(c.format_state == g.format_state, f"copy_slice({kk}):format")
    elif kk == "mask":
        src = gsdata(p) if aliasing else gsdata(p).consolidate()
        t = gsply.GSTensor.from_gsdata(src, device="cpu", mask=npy(k) if not isinstance(k, list) else np.array(k))
        same(plain_of(t), want, "from_gsdata(mask)")
    if aliasing and len(idx):
        alias(ctx, cont, g, p, idx, r, kk.startswith("slice"), dt, f"[{kk}]")
        if cont == "np":
            alias(ctx, cont, g, p, idx, c, False, dt, f"copy_slice({kk})")


def alias(ctx, cont, g, p, idx, r, view, dt, what):
    """Slices are views (writes visible both ways), masks and lists are copies (never visible)."""
    for a in ATTRS:
        x, s = getattr(r, a), getattr(g, a)
        if x is None or npy(x).size == 0:
            continue
        j = int(idx[-1])
        old = npy(s)[j].copy()
        npy(x)[len(idx) - 1] = old + np.float32(1)      # torch tensors share memory with their numpy view
        seen = bool(np.all(npy(getattr(g, a))[j] == old + np.float32(1)))
        need(seen == view, f"{what}:{'view' if view else 'copy'}:{a}", lambda: f"a write to {a} of the result is {'not ' if view else ''}visible in the source")
        if view:
            npy(x)[len(idx) - 1] = old
    if not view:
        same(plain_of(g), p, f"{what}:source", dtype=dt)


def single(ctx, c):
    p = scene(c["n"], c["k"], c["masks"], tuple(c["labels"]))
    g = make(ctx, c["cont"], c["route"], p, c["masks"])
    dt = np.float64 if c["route"] == "double" else np.float32
    if dt is np.float64:
        p = type(p)(*[a.astype(np.float64) for a in p.arrays()], labels=p.labels, masks=p.masks, names=p.names)
    if "key" in c:
        one(ctx, c["cont"], g, p, c["key"], dt, c.get("alias", False))
        return
    before = snapshot(g)
    for key in keys(c["n"], c["cont"], c["maxl"]):
        ctx.case({**c, "key": key}, one, ctx, c["cont"], g, p, key, dt, c.get("alias", False))
        if ctx.violations:
            return
        ctx.saw(c["cont"], c["route"], c["k"], c["masks"], c["n"], key)
    got = list(g)
    need(len(got) == len(p), "iter:len", lambda: f"iteration yields {len(got)} of {len(p)}")
    for i, t in enumerate(got):
        rows_equal(t, p, i, "iter")
    need(snapshot(g) == before, "source-changed", "selecting changed the scene")


def pairs(ctx, c):
    """Every second selection from every first selection."""
    n = c["n"]
    p = scene(n, c["k"], c["masks"])
    firsts = {}
    for key in itertools.chain(slices(n, STEPS[:-1]), ({"l": list(x), "as": "i64"} for L in (1, 2) for x in itertools.product(range(n), repeat=L)),
                               ({"m": list(m), "as": "arr"} for m in itertools.product((0, 1), repeat=n))):
        if c["cont"] == "t" and kind(key) == "slice-negative-step":
            continue
        idx = model(key, n)
        firsts.setdefault((kind(key), tuple(idx.tolist())), key)
    for f in firsts.values():
        g0 = make(ctx, c["cont"], c["route"], p, c["masks"])
        idx = model(f, n)
        try:
            r = g0[real(f, c["cont"])]
        except Exception as e:  # noqa: BLE001
            need(False, "first", f"{f}: {e}")
        q = p.take(idx)
        for key in keys(len(idx), c["cont"], 1):
            if "m" in key and key["as"] != "arr":
                continue
            ctx.case({**c, "first": f, "key": key}, one, ctx, c["cont"], r, q, key, np.float32)
            if ctx.violations:
                return
        ctx.saw("pairs", c["cont"], c["route"], f)


def big_keys(n, cont):
    for s in ([None, None, None], [1, None, None], [None, -1, None], [None, None, 2], [3, None, 7], [n // 2, n // 2 + 1, None], [256, 512, None],
              [None, None, -1], [-1, None, -3], [0, 0, None]):
        yield {"s": s}
    for i in (0, 1, n - 1, -1, -n, n // 2, n, -n - 1):
        yield {"i": i}
    for l in ([0, n - 1], list(range(n - 1, -1, -1)), list(range(-n, 0)), [n - 1] * 5, list(range(0, n, 3)) * 2, [n], [-n - 1]):
        yield {"l": l, "as": "i64"}
    for f in ("i8", "i16", "i32", "u8", "u16", "u32", "u64", "be"):   # narrow index arrays: no row number may wrap around
        if cont == "t" and f == "be":
            continue
        lo, hi = (0, np.iinfo(NARROW[f]).max) if f[0] == "u" else (np.iinfo(NARROW[f]).min, np.iinfo(NARROW[f]).max)
        v = sorted({x for x in (0, 1, 2, hi // 2, hi - 1, hi, n - 1, n - 2, -1, -2, -n, lo, lo + 1) if lo <= x <= hi and -n <= x < n})
        yield {"l": v + v[::-1], "as": f}
        if lo <= n <= hi:
            yield {"l": [0, n], "as": f}
    if cont == "t":
        yield {"l": [n - 1, 0, -1], "as": "t32"}
    for m in (np.arange(n) % 2, np.arange(n) % 7 == 3, np.arange(n) >= n - 1, np.zeros(n), np.ones(n), np.arange(n) < 256):
        yield {"m": m.astype(int).tolist(), "as": "arr"}
    yield {"m": [1] * (n + 1), "as": "arr"}


def big(ctx, c):
    p = scene(c["n"], c["k"], c["masks"])
    g = make(ctx, c["cont"], c["route"], p, c["masks"])
    for key in big_keys(c["n"], c["cont"]):
        ctx.beat()
        one(ctx, c["cont"], g, p, key, np.float32, alias_big := False)
    ctx.saw("big", c)


def cases(tier):
    th = tier == "thorough"
    LIN = ("linear", "linear", "rgb")
    for cont, routes in (("np", NPR), ("t", TR)):
        for r in routes:
            for k in KS:
                if r == "none" and k:
                    continue
                for n in range(7 if th else 6):
                    if not th and (n == 5 and k != 3 or n == 4 and k not in (0, 3, 15) or k == 8 and n not in (2, 3)):
                        continue
                    for m in MASKS if n <= 3 else (MASKS[(n + k) % 4], "none"):
                        yield {"cont": cont, "route": r, "k": k, "n": n, "masks": m, "maxl": 3 if th and n <= 4 else 2,
                               "labels": list(LIN if m == "2" and not r.startswith("file") and r not in ("contig",) else ("ply", "ply", "sh")),
                               "alias": n == 3}


def pair_cases(tier):
    th = tier == "thorough"
    for cont, routes in (("np", ("ctor", "cons", "file", "slice_cons", "mask_cons", "tensor_cons")), ("t", ("ctor", "cons", "slice_cons", "from_np_cons"))):
        for r in routes if th else routes[:3]:
            for k in (3, 0) if th else (3,):
                yield {"pairs": 1, "cont": cont, "route": r, "k": k, "n": 5 if th else 4, "masks": "2n"}


def big_cases(tier):
    for cont, routes in (("np", ("ctor", "cons", "file", "slice")), ("t", ("ctor", "cons", "slice_cons"))):
        for r in routes:
            for n in (130, 257, 5000, 10007, 33000, 65537, 100003) + ((20011, 70000, 131075, 200003) if tier == "thorough" else ()):
                for k in (0, 15):
                    if tier != "thorough" and (k and n > 11000 or n > 40000 and r not in ("ctor", "cons")):
                        continue
                    yield {"big": 1, "cont": cont, "route": r, "k": k, "n": n, "masks": "2n" if k else "1d"}


def units(tier, seed):
    u = [{"w": "pairs", "cont": c["cont"], "route": c["route"]} for c in pair_cases(tier)]
    u = [x for i, x in enumerate(u) if x not in u[:i]]
    u += [{"w": "big", "c": c} for c in sorted(big_cases(tier), key=lambda c: -c["n"])]
    for cont, routes in (("np", NPR), ("t", TR)):
        for r in routes:
            for par in (0, 1):
                u.append({"w": "one", "cont": cont, "route": r, "par": par})
    return u


def dispatch(ctx, c):
    return ctx.case(c, pairs if "pairs" in c else big if "big" in c else single, ctx, c)


def run_unit(ctx, u):
    if u["w"] == "big":
        dispatch(ctx, u["c"])
    elif u["w"] == "pairs":
        for c in pair_cases(ctx.tier):
            if c["cont"] == u["cont"] and c["route"] == u["route"]:
                dispatch(ctx, c)
    else:
        i = 0
        for c in cases(ctx.tier):
            if c["cont"] == u["cont"] and c["route"] == u["route"]:
                i += 1
                if i % 2 == u["par"]:
                    dispatch(ctx, c)
                    ctx.sample({k: c[k] for k in ("cont", "route", "k", "n", "masks")})


def warm(ctx, cont):
    for c in (dict(cont=cont, route="cons", k=3, n=2, masks="2n", maxl=1, labels=["ply", "ply", "sh"], alias=True),
              dict(cont=cont, route="ctor", k=0, n=2, masks="1d", maxl=1, labels=["ply", "ply", "sh"], alias=True)):
        dispatch(ctx, c)
    ctx.evaluations, ctx.violations = 0, []
    ctx.distinct.clear()


def replay(ctx, c):
    if "first" in c:
        p = scene(c["n"], c["k"], c["masks"])
        g = make(ctx, c["cont"], c["route"], p, c["masks"])
        r = g[real(c["first"], c["cont"])]
        ctx.case(c, one, ctx, c["cont"], r, p.take(model(c["first"], c["n"])), c["key"], np.float32)
        return
    dispatch(ctx, c)
