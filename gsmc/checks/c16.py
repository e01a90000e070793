"""C16: conversion utilities compute the documented elementwise transforms with the documented clamps."""
import itertools

import numpy as np

from gsmc import large, refs
from gsmc.core import need
from gsmc.data import Plain, gsdata, npy, realistic, snapshot
from gsmc.thist import tensor

LEVEL = "exploration"
RULE = ("Exhaustive input enumeration against float64 formulas: every finite half-precision value and every finite bfloat16 value (as float32), and the float32 neighbours of every clamp, through "
        "sigmoid, logit, sh2rgb, rgb2sh (arrays and scalars), the fused activation and deactivation of a scene, and both containers' unit and colour conversions, in every column, for every "
        "clamp-parameter combination of a grid; every array size in range x thread count, every shape x layout x dtype, in place and not, with guard cells around views. Distinct states are "
        "hashed by (function, parameters, input bytes).")
BOUND = {
    "quick": "128,768 values per function; 7 logit eps; 12+9 clamp combinations; sizes 0..70, 1000, 4097 x 1..4 threads and 21 sizes from 2047 to 200,003 x 2 thread counts; 30 shapes/layouts x 6 dtypes; quaternions: every value beside 9 companions in each position",
    "thorough": "the same with 64 companions, all clamp combinations x both value sets, sizes 0..600, and all sign/exponent pairs of float32 (every exponent, 64 mantissas)",
}
ASSUMPTIONS = ["inputs are finite", "CPU tensors only"]
WARM = ["u", "a", "t"]
E32 = 2.0 ** -23
C0 = 0.28209479177387814


def values(kind):
    if kind == "half":
        v = np.arange(65536, dtype=np.uint16).view(np.float16).astype(np.float32)
    elif kind == "bf16":
        v = (np.arange(65536, dtype=np.uint32) << 16).view(np.float32)
    elif kind == "edge":
        base = np.array([0, 1e-9, 1e-8, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1, 1 - 1e-4, 1 - 1e-6, 1 - 1e-3, 100, 10, 88, 88.7, 87.3, 103, 104, 9.2, 13.8, 16.6, 17.3, np.log(1e-4), np.log(100), np.log(0.01), np.log(10)])
        v = np.concatenate([s * base for s in (1, -1)]).astype(np.float32)
        out = [v]
        for _ in range(6):
            out += [np.nextafter(out[-1], np.float32(np.inf))]
        lo = v
        for _ in range(6):
            lo = np.nextafter(lo, np.float32(-np.inf))
            out.append(lo)
        v = np.concatenate(out).astype(np.float32)
    else:   # dense: every sign and exponent, 64 mantissas
        e = np.arange(512, dtype=np.uint32)[:, None] << 23
        m = (np.arange(64, dtype=np.uint32)[None] * 0x1FFFF + int(kind[5:]) * 977) & 0x7FFFFF
        v = (e | m).ravel().view(np.float32)
    return v[np.isfinite(v)]


# --- float64 formulas --------------------------------------------------------------------

def r_sigmoid(x):
    x = np.asarray(x, np.float64)
    with np.errstate(over="ignore", under="ignore"):
        z = np.exp(-np.abs(x))
        return np.where(x >= 0, 1 / (1 + z), z / (1 + z))


def r_logit(x, lo, hi):
    x = np.clip(np.asarray(x, np.float64), lo, hi)
    return np.log(x) - np.log1p(-x)


def close(got, ref, tol, key, inp, scale=None):
    g = np.asarray(got, np.float64)
    need(g.shape == np.shape(ref), f"shape:{key}", lambda: f"{g.shape} instead of {np.shape(ref)}")
    with np.errstate(invalid="ignore"):
        ok = np.abs(g - ref) <= tol
        ok |= g == ref
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        need(False, f"value:{key}", f"input {np.asarray(inp)[i[:np.ndim(inp)]] if np.ndim(inp) else inp!r} gives {g[i]!r}, the formula gives {np.asarray(ref)[i]!r} ({int((~ok).sum())} values differ)")


def t_rel(ref, eps, k=8, floor=1e-37):
    return k * eps * np.abs(ref) + floor


def t_logit(x, lo, hi, eps):
    """The argument may be rounded once after clamping, the result a few times."""
    x = np.clip(np.asarray(x, np.float64), lo, hi)
    return eps * (6 * np.abs(np.log(x) - np.log1p(-x)) + 2 + 2 / np.minimum(1 - x, 1.0))


def cast(fn, v, dt):
    return fn(v.astype(dt))


FUNCS = ("sigmoid", "logit", "sh2rgb", "rgb2sh")


def check_fn(name, got, x, eps, e, key):
    x = np.asarray(x)
    if name == "sigmoid":
        r = r_sigmoid(x)
        close(got, r, t_rel(r, eps, 10), key, x)
    elif name == "logit":
        r = r_logit(x, e, 1 - e)
        close(got, r, t_logit(x, e, 1 - e, eps), key, x)
        need(not np.isnan(got).any(), f"nan:{key}", "NaN from finite input")
    elif name == "sh2rgb":
        r = x.astype(np.float64) * C0 + 0.5
        close(got, r, eps * (4 * np.abs(x.astype(np.float64)) + 2), key, x)
    else:
        r = (x.astype(np.float64) - 0.5) / C0
        close(got, r, eps * (16 * np.abs(x.astype(np.float64)) + 8), key, x)


def fn(name, e=None):
    import gsply
    f = getattr(gsply, name)
    return (lambda x: f(x, eps=e)) if e is not None else f


LE = (None, 1e-6, 1e-3, 0.25, 1e-4, 1e-8, 1e-12)


def one_fn(ctx, name, kind, e, dt):
    v = values(kind).astype(dt)
    if name == "rgb2sh":
        v = v[np.abs(v) < 1e37]
    ctx.saw(name, kind, e, dt)
    keep = v.copy()
    with np.errstate(all="ignore"):
        got = fn(name, e)(v)
    need(v.tobytes() == keep.tobytes(), f"input:{name}", "the input array was changed")
    need(got.dtype == v.dtype or name in ("sh2rgb", "rgb2sh"), f"dtype:{name}", f"{got.dtype} for {v.dtype}")
    eps = E32 if dt == "float32" else 2.0 ** -50
    check_fn(name, got, v, eps, e or 1e-6, f"{name}({dt})")
    ctx.evaluations += v.size - 1
    if kind in ("edge", "half"):
        for x in v[:: 1 if kind == "edge" else 61]:
            for s in (float(x), np.float32(x)):
                with np.errstate(all="ignore"):
                    check_fn(name, np.asarray(fn(name, e)(s)), np.asarray(s), E32, e or 1e-6, f"{name}(scalar)")
    # inverses inside the unclamped range
    ep = e or 1e-6
    if name == "logit":
        with np.errstate(all="ignore"):
            p = v[(v > ep * 1.01) & (v < 1 - ep * 1.01)]
            if p.size:
                close(fn("sigmoid")(fn("logit", e)(p)), p.astype(np.float64), t_rel(p.astype(np.float64), max(eps, 1e-15), 64) + 64 * max(eps, 1e-15) * p * np.abs(np.log(p)), "sigmoid(logit)", p)
    if name == "rgb2sh":
        x = v[np.abs(v) < 1e30]
        close(fn("sh2rgb")(fn("rgb2sh")(x)), x.astype(np.float64), 16 * eps * (np.abs(x.astype(np.float64)) + 1), "sh2rgb(rgb2sh)", x)


def layouts():
    """name -> f(v, dtype) giving an array that holds the (cyclically extended) values."""
    def put(shape, dt, v, order="C"):
        n = int(np.prod(shape))
        return np.resize(v, n).astype(dt).reshape(shape, order=order)

    def view(big, idx):
        return lambda v, dt: put(big, dt, v)[idx]
    s = np.s_
    out = {f"C{sh}": (lambda sh: lambda v, dt: put(sh, dt, v))(sh) for sh in ((0,), (1,), (7,), (64,), (65,), (3, 1), (1, 3), (5, 3), (0, 3), (2, 3, 4), (1, 1, 1), (2, 2, 2, 2))}
    out.update({f"F{sh}": (lambda sh: lambda v, dt: put(sh, dt, v, "F"))(sh) for sh in ((5, 3), (3, 1), (2, 3, 4))})
    out.update({
        "strided": view((40,), s[::2]), "reversed": view((17,), s[::-1]), "column": view((9, 4), s[:, 1]), "columns": view((9, 7), s[:, 2:5]), "rows": view((9, 3), s[2:7]), "rows reversed": view((9, 3), s[::-1]),
        "every other row": view((9, 3), s[1::2]), "transposed": lambda v, dt: put((4, 6), dt, v).T, "swapped": lambda v, dt: put((2, 3, 4), dt, v).swapaxes(0, 2), "3d cut": view((4, 5, 6), s[1:3, ::2, 2:]),
        "broadcast": lambda v, dt: np.broadcast_to(put((3,), dt, v), (5, 3)), "readonly": lambda v, dt: ro(put((6, 3), dt, v)), "readonly cut": lambda v, dt: ro(put((6, 4), dt, v))[:, 1:],
        "0-d": lambda v, dt: put((), dt, v), "scalar expanded": lambda v, dt: np.broadcast_to(put((), dt, v), (4,)),
    })
    return out


def ro(a):
    a.flags.writeable = False
    return a


DTYPES = ("float32", "float64", "float16", "int32", "uint8", "bool", ">f4", "int64")


def one_layout(ctx, name, lay, dt):
    for seed, vals in enumerate(([0.3, -2.5, 0.999, 4.0, 1e-7, -0.0, 0.5, 1.0, -30.0, 0.01, 17.5], [1, 0, 3, 0, 2, 5, 1, 0, 1])):
        v = np.array(vals)
        if dt in ("uint8", "bool"):
            v = np.abs(v)
        a = layouts()[lay](v, dt)
        keep = a.copy()
        ctx.evaluations += 1
        ctx.saw("layout", name, lay, dt, seed)
        got = fn(name)(a)
        need(a.tobytes() == keep.tobytes(), f"input:{name}:{lay}", "the input array was changed")
        got = np.asarray(got)
        need(got.shape == a.shape, f"shape:{name}:{lay}", f"{got.shape} instead of {a.shape}")
        need(np.issubdtype(got.dtype, np.floating), f"dtype:{name}:{dt}", f"{got.dtype}")
        eps = 2.0 ** -9 if got.dtype == np.float16 else E32
        check_fn(name, got.astype(np.float64), keep.astype(np.float64), eps, 1e-6, f"{name}:{lay}:{dt}")
        if got.size:
            need(not np.shares_memory(got, a), f"alias:{name}", "the result shares memory with the input")


def one_size(ctx, name, n, threads):
    import numba
    numba.set_num_threads(threads)
    try:
        v = np.resize(values("edge")[::7], n)
        big = np.full(n + 8, 7.5, np.float32)
        big[4:n + 4] = v
        got = fn(name)(big[4:n + 4])
        ctx.evaluations += 1
        check_fn(name, got, v, E32, 1e-6, f"{name}:size {n}")
        need((big[:4] == 7.5).all() and (big[n + 4:] == 7.5).all() and big[4:n + 4].tobytes() == v.tobytes(), f"input:{name}", f"size {n}")
    finally:
        numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)


# --- fused kernels on a scene ------------------------------------------------------------

def scene(s, o, q, extra=0):
    n = len(s)
    p = realistic(n, 3, extra)
    p.scales, p.opacities, p.quats = s, o, q
    p.masks = np.arange(n) % 2 > 0
    return p


def act_expect(key, g, s, o, q, lo, hi, nq):
    """Compare an activated scene with the formulas."""
    lo, hi, nq = (float(np.float32(x)) for x in (lo, hi, nq))
    with np.errstate(over="ignore", under="ignore"):
        x = np.exp(s.astype(np.float64))
    r = np.clip(x, lo, hi)
    got = np.asarray(g.scales)
    need(not np.isnan(got).any(), f"nan:{key}:scales", "NaN from finite input")
    tol = r * E32 * (4 + np.minimum(np.abs(s.astype(np.float64)), 100))
    close(got, r, tol, f"{key}:scales", s)
    need((got >= np.float32(lo)).all() and (got <= np.float32(hi)).all(), f"clamp:{key}:scales", f"outside [{lo}, {hi}]")
    rs = r_sigmoid(o)
    go = np.asarray(g.opacities).reshape(-1)
    need(not np.isnan(go).any() and (go >= 0).all() and (go <= 1).all(), f"range:{key}:opacities", "outside [0, 1]")
    close(go, rs.reshape(-1), t_rel(rs, E32, 10).reshape(-1) + E32 * rs.reshape(-1) * np.minimum(np.abs(o.astype(np.float64).reshape(-1)), 100), f"{key}:opacities", o.reshape(-1))
    nrm = np.sqrt((q.astype(np.float64) ** 2).sum(1))
    gq = np.asarray(g.quats)
    need(not np.isnan(gq).any(), f"nan:{key}:quats", lambda: f"NaN from {q[np.isnan(gq).any(1)][0]}")
    sure = np.abs(nrm - nq) > 1e-5 * nq
    small = (nrm < nq) & sure
    big = (nrm > nq) & sure
    need((gq[small] == np.array([0, 0, 0, 1], np.float32)).all(), f"fallback:{key}", lambda: f"{q[small][0]} gives {gq[small][(gq[small] != [0, 0, 0, 1]).any(1)][0]}")
    if big.any():
        close(gq[big], q[big].astype(np.float64) / nrm[big][:, None], 8 * E32 + 0 * q[big].astype(np.float64), f"{key}:quats", q[big])


def deact_expect(key, g, s, o, lo, olo, ohi):
    lo, olo, ohi = (float(np.float32(x)) for x in (lo, olo, ohi))
    r = np.log(np.maximum(s.astype(np.float64), lo))
    got = np.asarray(g.scales)
    need(np.isfinite(got).all(), f"finite:{key}:scales", "not finite")
    close(got, r, E32 * (4 * np.abs(r) + 4), f"{key}:scales", s)
    go = np.asarray(g.opacities).reshape(-1)
    need(np.isfinite(go).all(), f"finite:{key}:opacities", "not finite")
    close(go, r_logit(o, olo, ohi).reshape(-1), t_logit(o, olo, ohi, E32).reshape(-1), f"{key}:opacities", o.reshape(-1))


def cols(v, shift):
    """Three columns that all take every value."""
    return np.ascontiguousarray(np.stack([v, np.roll(v, 1 + shift), v[::-1]], 1))


AP = list(itertools.product((1e-4, 0.01, 1e-30), (100.0, 10.0, 1e30), (1e-8,))) + [(1.0, 1.0, 1e-6), (0.5, 2.0, 1.0), (1e-4, 100.0, 1e-3)]
DP = list(itertools.product((1e-9, 1e-8, 0.1), (1e-4, 1e-6, 0.3), (1 - 1e-4,))) + [(1e-9, 1e-5, 0.999), (1e-38, 0.5, 0.75), (1e-30, 1e-4, 1 - 1e-6)]


def untouched(g, want, key):
    got = snapshot(g)
    need(got == want, f"input:{key}", "the scene given was changed by a request not in place")


def one_act(ctx, kind, pi, container):
    """Activation of a scene whose scale columns and opacities take every value."""
    import gsply
    v = values(kind)
    s, o = cols(v, pi), v.copy()
    n = len(v)
    q = np.tile(np.array([[0.5, -0.25, 1.5, 2.0]], np.float32), (n, 1))
    ctx.saw("act", kind, pi, container)
    ctx.evaluations += 4 * n
    if container == "np":
        for inplace in (False, True):
            g = gsdata(scene(s.copy(), o.copy(), q.copy()))
            before = snapshot(g)
            kw = {} if pi < 0 else dict(zip(("min_scale", "max_scale", "min_quat_norm"), AP[pi]))
            r = gsply.apply_pre_activations(g, inplace=inplace, **kw)
            need((r is g) == inplace, "identity:activate", f"inplace={inplace}")
            act_expect("activate", r, s, o, q, *((1e-4, 100.0, 1e-8) if pi < 0 else AP[pi]))
            if not inplace:
                untouched(g, before, "activate")
            rest(r, scene(s, o, q), ("means", "sh0", "shN"))
    elif container == "np.denormalize":
        p = scene(s.copy(), o.copy(), q.copy())
        g = gsdata(p)
        r = g.denormalize(inplace=False)
        act_expect("denormalize", r, s, o, q, 1e-4, 100.0, 1e-8)
    else:
        p = scene(s.copy(), o.copy(), q.copy())
        t = tensor(p)
        r = t.denormalize(inplace=False)
        with np.errstate(over="ignore", under="ignore"):
            x = np.exp(s.astype(np.float64))
        fin = x < 3.4e38
        got = npy(r.scales)
        need(not np.isnan(got).any(), "nan:tensor:scales", "NaN from finite input")
        close(np.where(fin, got, 0), np.where(fin, x, 0), np.where(fin, x, 1) * E32 * (4 + np.minimum(np.abs(s.astype(np.float64)), 100)) + 2e-38, "tensor.denormalize:scales", s)
        ro_ = r_sigmoid(o)
        close(npy(r.opacities), ro_, t_rel(ro_, E32, 10) + E32 * ro_ * np.minimum(np.abs(o.astype(np.float64)), 100), "tensor.denormalize:opacities", o)


def rest(g, p, names):
    for a in names:
        need(np.asarray(getattr(g, a)).astype(np.float32).tobytes() == np.ascontiguousarray(getattr(p, a)).tobytes(), f"other:{a}", "an attribute that is not converted was changed")
    need(np.array_equal(np.asarray(g.masks).reshape(-1), p.masks.reshape(-1)), "other:masks", "masks changed")


COMPANION = [(0, 0, 0), (1, 0, 0), (0, -1, 0.5), (1e-9, 0, 0), (-1e-8, 1e-8, 0), (1e4, -3, 2), (0.5, 0.5, 0.5), (-1e-4, 1e-6, 1e-5), (7, 7, -7)]


def one_quat(ctx, kind, pos, ci, nq, container):
    """One quaternion component takes every value beside fixed companions; also all four equal in magnitude."""
    import gsply
    v = values(kind)
    c = COMPANION[ci] if ci < len(COMPANION) else tuple(float(x) for x in np.exp2(np.array([ci % 16 - 8, ci % 5 - 2, ci % 7 - 30])))
    n = len(v)
    q = np.zeros((n, 4), np.float32)
    q[:, pos] = v
    for k, x in enumerate(c):
        q[:, (pos + 1 + k) % 4] = x
    if ci == 1 and pos == 3:
        q = np.stack([v, -v, v, v], 1).astype(np.float32)
    s = np.full((n, 3), -1.0, np.float32)
    o = np.zeros(n, np.float32)
    ctx.saw("quat", kind, pos, ci, nq, container)
    ctx.evaluations += n
    g = gsdata(scene(s.copy(), o.copy(), q.copy()))
    if container == "np":
        gsply.apply_pre_activations(g, min_quat_norm=nq)
        act_expect("activate", g, s, o, q, 1e-4, 100.0, nq)
    else:
        act_expect("denormalize", g.denormalize(inplace=False), s, o, q, 1e-4, 100.0, 1e-8)


def one_deact(ctx, kind, pi, container):
    import gsply
    v = values(kind)
    s, o = cols(v, pi), v.copy()
    q = np.tile(np.array([[0.5, -0.25, 1.5, 2.0]], np.float32), (len(v), 1))
    ctx.saw("deact", kind, pi, container)
    ctx.evaluations += 4 * len(v)
    if container == "np":
        for inplace in (False, True):
            p = scene(s.copy(), o.copy(), q.copy())
            p.labels = ("linear", "linear", "sh")
            g = gsdata(p)
            before = snapshot(g)
            kw = {} if pi < 0 else dict(zip(("min_scale", "min_opacity", "max_opacity"), DP[pi]))
            r = gsply.apply_pre_deactivations(g, inplace=inplace, **kw)
            need((r is g) == inplace, "identity:deactivate", f"inplace={inplace}")
            deact_expect("deactivate", r, s, o, *((1e-9, 1e-4, 1 - 1e-4) if pi < 0 else DP[pi]))
            if not inplace:
                untouched(g, before, "deactivate")
            rest(r, scene(s, o, q), ("means", "sh0", "shN", "quats"))
        return
    p = scene(s.copy(), o.copy(), q.copy())
    p.labels = ("linear", "linear", "sh")
    if container == "np.normalize":
        r = gsdata(p).normalize(inplace=False)
        deact_expect("normalize", r, s, o, 1e-9, 1e-4, 1 - 1e-4)
    else:
        r = tensor(p).normalize(inplace=False)

        class W:
            scales, opacities = npy(r.scales), npy(r.opacities)
        deact_expect("tensor.normalize", W, s, o, 1e-9, 1e-4, 1 - 1e-4)


def one_color(ctx, kind, to, container):
    v = values(kind)
    v = v[np.abs(v) < 1e37]
    p = realistic(len(v), 0, 1)
    p.sh0 = cols(v, 1)
    p.labels = ("ply", "ply", "sh" if to == "rgb" else "rgb")
    ctx.saw("color", kind, to, container)
    ctx.evaluations += 3 * len(v)
    name = "sh2rgb" if to == "rgb" else "rgb2sh"
    for inplace in (False, True):
        g = gsdata(p) if container == "np" else tensor(p)
        if container == "np.view":
            g = gsdata(p).consolidate()
        keep = p.sh0.copy()
        r = getattr(g, "to_" + to)(inplace=inplace)
        check_fn(name, npy(r.sh0), keep, E32, None, f"to_{to}:{container}")
        if not inplace:
            need(npy(g.sh0).tobytes() == keep.tobytes(), f"input:to_{to}:{container}", "the scene given was changed")


def one_scene_size(ctx, n, threads, form):
    """Every scene size x thread count x representation (plain, consolidated, (N,1) opacities, double, strided)."""
    import gsply
    import numba
    numba.set_num_threads(threads)
    try:
        e = values("edge")
        e = e[np.abs(e) < 30]
        s, o = np.resize(e[::3], (n, 3)).astype(np.float32), np.resize(e[::5], n).astype(np.float32)
        q = np.resize(e[::11], (n, 4)).astype(np.float32)
        q[1::3] *= np.float32(1e-10)
        for act in (True, False):
            p = scene(s.copy(), o.copy(), q.copy())
            if not act:
                p.labels = ("linear", "linear", "sh")
            g = gsdata(p)
            guard = None
            if form == "cons":
                g = g.consolidate()
            elif form == "column":
                g.opacities = o.reshape(n, 1).copy()
            elif form == "double":
                g.scales, g.opacities, g.quats = s.astype(np.float64), o.astype(np.float64), q.astype(np.float64)
            elif form == "fortran":
                g.scales, g.quats = s.copy(order="F"), q.copy(order="F")
            elif form == "guard":
                guard = [np.full((n + 2, 3), 9.0, np.float32), np.full(n + 2, 9.0, np.float32), np.full((n + 2, 4), 9.0, np.float32)]
                for b, x in zip(guard, (s, o, q)):
                    b[1:-1] = x
                g.scales, g.opacities, g.quats = (b[1:-1] for b in guard)
            ctx.evaluations += 1
            for inplace in (False, True):
                before = snapshot(g)
                r = (gsply.apply_pre_activations if act else gsply.apply_pre_deactivations)(g, inplace=inplace)
                if not inplace:
                    untouched(g, before, f"{form}")
                if act:
                    act_expect(f"activate:{form}", r, s, o, q, 1e-4, 100.0, 1e-8)
                else:
                    deact_expect(f"deactivate:{form}", r, s, o, 1e-9, 1e-4, 1 - 1e-4)
                rest(r, p, ("means", "sh0", "shN") + (() if act else ("quats",)))
                need(len(r) == n and np.asarray(r.scales).dtype == np.float32, f"form:{form}", "wrong size or type")
            if guard:
                for b in guard:
                    need((b[0] == 9).all() and (b[-1] == 9).all(), "guard", "cells outside the arrays were changed")
    finally:
        numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)


def one_invalid(ctx, which):
    """Invalid clamp parameters and malformed scenes are refused and leave the scene as it was."""
    import gsply
    z = 4
    bad = {"act": [dict(min_scale=0.0), dict(min_scale=-1.0), dict(max_scale=0.0), dict(max_scale=-3.0), dict(min_scale=2.0, max_scale=1.0), dict(min_quat_norm=0.0), dict(min_quat_norm=-1.0)],
           "deact": [dict(min_scale=0.0), dict(min_scale=-1.0), dict(min_opacity=0.0), dict(min_opacity=-0.1), dict(max_opacity=1.0), dict(max_opacity=1.5), dict(min_opacity=0.7, max_opacity=0.3), dict(min_opacity=0.5, max_opacity=0.5)]}[which]
    f = gsply.apply_pre_activations if which == "act" else gsply.apply_pre_deactivations
    r32 = lambda *s: np.linspace(0.1, 0.9, int(np.prod(s)), dtype=np.float32).reshape(s)
    muts = [("scales", r32(z, 2)), ("scales", r32(3 * z)), ("scales", r32(z - 1, 3)), ("scales", None), ("opacities", r32(z, 2)), ("opacities", r32(z + 1)), ("opacities", None)]
    if which == "act":
        muts += [("quats", r32(z, 3)), ("quats", r32(z + 1, 4)), ("quats", None), ("quats", r32(z - 1, 4))]
    for inplace in (True, False):
        for kw in bad:
            g = gsdata(realistic(z, 3))
            before = snapshot(g)
            ctx.evaluations += 1
            try:
                f(g, inplace=inplace, **kw)
            except ValueError:
                need(snapshot(g) == before, f"partial:{which}", f"{kw}: refused but the scene was changed")
                continue
            need(False, f"accepted:{which}", f"{kw} accepted")
        for a, x in muts:
            g = gsdata(realistic(z, 3))
            setattr(g, a, x)
            others = {b: np.array(getattr(g, b)) for b in ("scales", "opacities", "quats", "means") if b != a}
            ctx.evaluations += 1
            try:
                f(g, inplace=inplace)
            except Exception:  # noqa: BLE001
                for b, y in others.items():
                    need(np.asarray(getattr(g, b)).tobytes() == y.tobytes(), f"partial:{which}", f"bad {a}: refused but {b} was changed")
                continue
            need(False, f"accepted:{which}:{a}", f"{a} of shape {None if x is None else x.shape} accepted")


FN = {f.__name__: f for f in (one_fn, one_layout, one_size, one_act, one_quat, one_deact, one_color, one_scene_size, one_invalid)}


def groups(tier):
    """Cases grouped so that one unit compiles few kernels."""
    th = tier == "thorough"
    kinds = ["half", "bf16", "edge"] + ([f"dense{i}" for i in range(16)] if th else [])
    for name in FUNCS:
        yield [(one_fn, (name, k, e, dt)) for k in kinds for e in (LE if name == "logit" else (None,)) for dt in ("float32", "float64")]
        lays = list(layouts())
        for i in range(0, len(lays), 5):
            yield [(one_layout, (name, lay, dt)) for lay in lays[i:i + 5] for dt in DTYPES]
        yield [(one_size, (name, n, t)) for n in list(range(601 if th else 71)) + [1000, 4097] for t in (1, 2, 3, 4)]
        yield [(one_size, (name, n, t)) for n in large.BIG for t in ((1, 2, 3, 4) if th else (1, 4))]
    yield [(one_act, (k, p, "np")) for k in kinds for p in range(-1, len(AP))]
    yield [(one_deact, (k, p, "np")) for k in kinds for p in range(-1, len(DP))]
    yield [(f, (k, 0, c)) for k in kinds for f, c in ((one_act, "np.denormalize"), (one_act, "t"), (one_deact, "np.normalize"), (one_deact, "t"))]
    yield [(one_color, (k, to, c)) for k in kinds for to in ("rgb", "sh") for c in ("np", "np.view", "t")]
    for pos in range(4):
        yield [(one_quat, (k, pos, ci, nq, c)) for k in (kinds if th else kinds[:3]) for ci in range(64 if th else len(COMPANION)) for nq, c in ((1e-8, "np"), (1e-3, "np"), (1e-8, "d"))]
    for form in ("plain", "cons", "column", "double", "fortran", "guard"):
        yield [(one_scene_size, (n, t, form)) for n in list(range(601 if th else 71)) + [1000, 4097] for t in (1, 2, 3, 4)]
        yield [(one_scene_size, (n, t, form)) for n in large.BIG for t in ((1, 2, 3, 4) if th else (1, 4))]
    yield [(one_invalid, (w,)) for w in ("act", "deact")]


def units(tier, seed):
    return [{"g": i} for i in range(len(list(groups(tier))))]


def run_unit(ctx, u):
    for f, a in list(groups(ctx.tier))[u["g"]]:
        c = {"f": f.__name__, "a": a}
        ctx.case(c, f, ctx, *a)
        ctx.sample(c)


def warm(ctx, w):
    import gsply
    if w == "u":
        x = np.zeros(3, np.float32)
        gsply.sigmoid(x), gsply.logit(x)
    elif w == "a":
        g = gsdata(realistic(3, 0))
        gsply.apply_pre_deactivations(gsply.apply_pre_activations(g))
    else:
        g = gsdata(realistic(3, 0))
        g.to_rgb().to_sh()


def replay(ctx, c):
    ctx.case(c, FN[c["f"]], ctx, *c["a"])
