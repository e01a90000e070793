"""C02: the compressed round trip stays within the quantisation error."""
import itertools

import numpy as np

from gsmc import large, refs
from gsmc.core import need
from gsmc.data import ATTRS, KS, LAYOUTS, Plain, check, gsdata, lay, npy, plain_of, realistic, snapshot
from gsmc.packed import check_decoded
from gsmc.routes import PFORMS, PRECISIONS, build, build_precision, pconcat

LEVEL = "exploration"
RULE = ("Exhaustive enumeration: every scene size in range x SH degree with chunk extents that differ by orders of magnitude; for every packed "
        "field every code, approached from just below, at, and just above both of its rounding boundaries, under each extent in a list and each "
        "placement of the chunk's extreme rows; every finite bfloat16 value as opacity, SH coefficient, log-scale and coordinate; every "
        "quaternion of {-3..3}^4 and every 10-bit boundary of every component for each largest index and sign; every attribute-layout pair. "
        "Oracle: float64 half-step bounds computed from the input's own 256-row chunks. A case is one scene compressed and decompressed; "
        "distinct when the compressed bytes differ (hash), non-trivial when it has at least one Gaussian.")
BOUND = {
    "quick": "sizes 0..260, 511..514, 767..770, 21 sizes from 2047 to 200,003 x 4 degrees; 14 extents x all 2048/1024/256 codes x 5 probes; all 65,280 finite bfloat16 values; "
             "2400 quaternion grid points x 6 norms (2e-6 to 3e38); 4 x 2 x 3 x 1023 x 3 quaternion boundaries; tensor codec on the same code scenes; "
             "scenes of half and double precision in 14 forms, tensors of 3 precisions",
    "thorough": "sizes 0..1100 and 2^k+-1 to 65537 x 4 degrees; the quick code, value and boundary sets with the tensor codec on all placements; "
                "50,624 quaternion grid points ({-7..7}^4) x 12 norms",
}
ASSUMPTIONS = ["CPU tensors only", "each chunk's extent (max-min) is representable in float32", "quaternions of norm below 1e-6 carry no rotation and are exempt from the rotation bound"]
WARM = ["cpu", "tensor", "order"]
C0 = refs.C0


def warm(ctx, w):
    import gsply
    if w == "cpu":
        for k in (0, 3):
            gsply.decompress_from_bytes(gsply.compress_to_bytes(gsdata(realistic(300, k))))
    elif w == "order":
        gsply.compress_to_bytes(gsdata(realistic(5, 3)).consolidate())
    else:
        roundtrip_tensor(ctx, realistic(300, 3))


def roundtrip(ctx, p, g=None):
    import gsply
    g = gsdata(p) if g is None else g
    s = snapshot(g)
    b = gsply.compress_to_bytes(g)
    need(snapshot(g) == s, "compress:source-changed", "compressing changed the scene")
    ctx.saw(b)
    return plain_of(gsply.decompress_from_bytes(b))


def roundtrip_tensor(ctx, p, dtype=None):
    import gsply
    t = gsply.GSTensor.from_gsdata(gsdata(p), device="cpu")
    if dtype:
        import torch
        t = t.to(dtype=torch.bfloat16) if dtype == "bfloat16" else getattr(t, dtype)()
    f = ctx.path("t.compressed.ply")
    gsply.plywrite_gpu(f, t)
    return plain_of(gsply.plyread_gpu(f, device="cpu"))


def decide(ctx, p, what, tensor=False):
    got = roundtrip(ctx, p)
    check_decoded(got, p, what)
    need(got.labels == ("ply", "ply", "sh"), what + ":labels", lambda: str(got.labels))
    if tensor and len(p):
        check_decoded(roundtrip_tensor(ctx, p), p, what + ":tensor", slack=0.01)
        ctx.evaluations += 1


# --- sizes ---------------------------------------------------------------------------------

def sized(n, k):
    """Chunk c's extents are 1000^c-ish apart, so a row decoded against another chunk's bounds is far off."""
    p = realistic(n, k, n)
    c = np.arange(n) // 256
    p.means = (p.means * (0.01 * 7.0 ** (c % 6))[:, None] + (c * 13)[:, None]).astype(np.float32)
    p.scales = (p.scales * (0.3 + (c % 3))[:, None] - (c % 4)[:, None]).astype(np.float32)
    p.sh0 = (p.sh0 * (0.1 + (c % 5))[:, None] + (c % 7)[:, None]).astype(np.float32)
    return p


def one_size(ctx, n, k):
    decide(ctx, sized(n, k), f"size", tensor=n in (1, 2, 3, 255, 256, 257, 300, 512, 513, 769, 4099, 10007, 32771, 65537, 100003))


# --- every code of every linear field ------------------------------------------------------------

EXT = [(0.0, 1.0), (-1.0, 1.0), (1000.0, 1000.5), (-20.0, 20.0), (0.0, 1e-6), (-1e6, 1e6), (3.0, 3.0), (-5.25, -5.0), (0.0, 1e-12),
       (-1e-20, 1e-20), (1e30, 3e38), (-0.0, 0.1), (7.0, 7.0000005), (0.3, 0.7)]
EXT_TH = EXT + [(s * a, s * a + w) for s in (1, -1) for a in (0.0, 0.1, 5.0, 123.456) for w in (1e-3, 0.037, 17.3)] + [(-1e38, 1e38), (1e-38, 2e-38)]


def probes(lo, hi, steps, deep):
    """Values at every code and at both sides of every rounding boundary."""
    lo, hi = float(np.float32(lo)), float(np.float32(hi))
    c = np.arange(steps + 1, dtype=np.float64)
    fr = [c, c + 0.5 - 1e-3, c + 0.5 + 1e-3, c + 0.25, c - 0.25]
    if deep:
        fr += [c + 0.5, c + 0.499, c + 0.1, c - 0.1, c + 0.4, c - 0.4]
    x = np.clip(np.concatenate(fr) / steps, 0, 1) * (hi - lo) + lo
    return np.clip(x.astype(np.float32), np.float32(lo), np.float32(hi))


def chunked(v, lo, hi, place, total):
    """v spread over chunks of 256 in which two rows hold lo and hi; padded by repetition to `total` chunks."""
    per = 254
    n = total * per
    w = np.resize(v, n).reshape(total, per)
    l, h = np.full((total, 1), np.float32(lo)), np.full((total, 1), np.float32(hi))
    if place == 0:
        w = np.concatenate([l, h, w], 1)
    elif place == 1:
        w = np.concatenate([h, w, l], 1)
    else:
        w = np.concatenate([w[:, :100], l, w[:, 100:200], h, w[:, 200:]], 1)
    return w.reshape(-1).astype(np.float32)


def code_scene(ei, place, deep):
    exts = EXT_TH if deep else EXT
    lo, hi = exts[ei]
    m = [probes(lo, hi, s, deep) for s in (2047, 1023, 2047)]
    total = -(-max(len(x) for x in m) // 254)
    means = np.stack([chunked(np.roll(x, 17 * a), lo, hi, (place + a) % 3, total) for a, x in enumerate(m)], 1)
    slo, shi = np.clip(lo, -20, 20), np.clip(hi, -20, 20)
    s = [probes(slo, shi, st, deep) for st in (2047, 1023, 2047)]
    scales = np.stack([chunked(np.roll(x, 29 * a + 5), slo, shi, (place + 2 * a) % 3, total) for a, x in enumerate(s)], 1)
    # colours: stored as sh*C0+0.5
    clo, chi = (lo, hi) if max(abs(lo), abs(hi)) < 1e30 else (-1e3, 1e3)
    c = [np.float32(1) * probes(clo, chi, 255, deep) for _ in range(3)]
    sh0 = np.stack([chunked(np.roll(x, 31 * a + 3), clo, chi, (place + 2 * a + 1) % 3, total) for a, x in enumerate(c)], 1)
    n = len(means)
    p = realistic(n, 0, ei)
    p.means, p.scales, p.sh0 = means, scales, sh0
    return p


def one_code(ctx, ei, place, deep, tensor):
    p = code_scene(ei, place, deep)
    decide(ctx, p, "codes", tensor=tensor)


# --- every bfloat16 value -----------------------------------------------------------------------

def bf16():
    u = np.arange(65536, dtype=np.uint32) << 16
    v = u.view(np.float32)
    return v[np.isfinite(v)]


def f19():
    """All finite floats with 10 mantissa bits."""
    u = np.arange(1 << 19, dtype=np.uint32) << 13
    v = u.view(np.float32)
    return v[np.isfinite(v)]


def one_bf16(ctx, field, part, parts, deep):
    v = (f19() if deep and field in ("opacities", "shN") else bf16())
    v = np.array_split(v, parts)[part]
    if field == "opacities":
        p = realistic(len(v), 0)
        p.opacities = v
    elif field == "shN":
        # every value in every channel position of a band-3 scene
        n = -(-len(v) // 9)
        p = realistic(n, 3)
        p.shN = np.resize(v, n * 9).reshape(n, 3, 3)
    elif field == "scales":
        # pairs: every value beside values of ordinary size
        n = len(v)
        p = realistic(n, 0)
        p.scales = np.stack([v, np.where(np.arange(n) % 2 == 0, v, np.float32(-3.0)), -v], 1)
    else:
        # consecutive values share a chunk, so extents run over the whole float range
        v = v[np.abs(v) < 1e38]
        n = len(v)
        p = realistic(n, 0)
        p.means = np.stack([v, -v, v * np.float32(0.5)], 1)
    decide(ctx, p, "bf16:" + field)


# --- rotations -------------------------------------------------------------------------------

NORMS = (1.0, 1e-5, 2e-6, 1e-3, 1e4, 3e38, 0.5, 3.0, 1e20, 1e15, 0.999, 7.0)


def one_quatgrid(ctx, r, norm):
    v = np.arange(-r, r + 1)
    q = np.array([x for x in itertools.product(v, repeat=4) if any(x)], np.float64)
    q = q / np.linalg.norm(q, axis=1, keepdims=True) * norm
    p = realistic(len(q), 0)
    p.quats = q.astype(np.float32)
    decide(ctx, p, "quatgrid", tensor=norm >= 1e-6)


def one_quatcode(ctx, big, sign, comp, deep):
    """Component `comp` of the three small ones sweeps every 10-bit boundary that the largest component permits."""
    c = np.arange(-1, 1024, dtype=np.float64)
    off = (0.5 - 2e-3, 0.5 + 2e-3, 0.0) + ((0.25, 0.75, 0.5) if deep else ())
    a = ((np.concatenate([c + o for o in off]) / 1023) - 0.5) * refs.SQ2
    rows = []
    for b in (0.0, 0.3, -0.45):
        x = np.zeros((len(a), 4))
        o = [i for i in range(4) if i != big]
        x[:, o[comp]] = a
        x[:, o[(comp + 1) % 3]] = b
        rest = 1 - (x * x).sum(1)
        ok = rest > 0
        x[:, big] = np.sqrt(np.maximum(rest, 0)) * sign
        ok &= np.abs(x[:, big]) >= np.abs(x).max(1) - 1e-12
        rows.append(x[ok])
    x = np.concatenate(rows)
    p = realistic(len(x), 0)
    p.quats = x.astype(np.float32)
    decide(ctx, p, "quatcode", tensor=True)


def one_quatedge(ctx):
    q = np.array(list(itertools.product((0, 1, -1, 1e-7, -1e-7, 0.70710678), repeat=4)), np.float32)
    p = realistic(len(q), 0)
    p.quats = q
    decide(ctx, p, "quatedge", tensor=True)


# --- SH codes, layouts, chunk degeneracies --------------------------------------------------------

def one_sh(ctx, k, deep):
    c = np.arange(-3, 259, dtype=np.float64)
    v = np.concatenate([(c - 128 + o) / 32 for o in (0.0, 1e-3, -1e-3, 0.5, 0.25, 0.75)]).astype(np.float32)
    n = len(v) + 3 * k
    p = realistic(n, k)
    i = (np.arange(n)[:, None] + np.arange(3 * k)[None]) % len(v)
    p.shN = v[i].reshape(n, k, 3)
    decide(ctx, p, "sh", tensor=True)


def one_layout(ctx, lo, field, k):
    p = sized(300, k)
    arrs = [lay(x, lo if a == field else "C") for a, x in zip(ATTRS, p.arrays())]
    import gsply
    g = gsply.GSData(*arrs, _format=gsdata(p).format_state)
    b = gsply.compress_to_bytes(g)
    ctx.saw(b, lo, field)
    need(b == gsply.compress_to_bytes(gsdata(p)), "layout:bytes", f"{field} in layout {lo} compresses to other bytes")


def one_route(ctx, r, n, k):
    p = sized(n, k)
    g = build(r, p, ctx)
    check_decoded(roundtrip(ctx, p, g), p, "route:" + r)


def one_precision(ctx, prec, form, n, k):
    """Scenes of half or double precision (arrays, or one base array) compress like their single-precision values."""
    import gsply
    g, w = build_precision(prec, form, sized(n, k))
    check_decoded(roundtrip(ctx, w, g), w, f"precision:{prec}:{form}")
    need(gsply.compress_to_bytes(g) == gsply.compress_to_bytes(gsdata(w)), "precision:bytes", lambda: f"{prec} scene ({form}) compresses to other bytes")


def one_tensor_precision(ctx, dtype, n, k):
    import torch
    p = sized(n, k)
    w = Plain(*[torch.from_numpy(a).to(getattr(torch, dtype)).float().numpy() for a in p.arrays()], labels=p.labels)
    check_decoded(roundtrip_tensor(ctx, p, {"float16": "half", "float64": "double", "bfloat16": "bfloat16"}[dtype]), w, f"tensor-precision:{dtype}", slack=0.01)


def one_degenerate(ctx, mode, n):
    p = sized(n, 3)
    if mode == "const":
        for a in ("means", "scales", "sh0"):
            getattr(p, a)[:] = getattr(p, a)[0]
    elif mode == "const_axis":
        p.means[:, 1] = 4.5
        p.scales[:, 2] = -3.25
        p.sh0[:, 0] = 0.75
    elif mode == "zeros":
        for a in ATTRS:
            getattr(p, a)[...] = 0
        p.quats[:, 0] = 1
    elif mode == "scale_beyond":
        p.scales = (p.scales * 10).astype(np.float32)
        p.scales[::2] *= -1
    elif mode == "scale_all_beyond":
        p.scales = np.full_like(p.scales, 25.0)
        p.scales[:, 1] = -33.0
    elif mode == "outlier":
        p.means[n // 2] = 1e5
        p.sh0[n // 3] = -50
    elif mode == "infinite_opacity":
        p.opacities[::2] = 500
        p.opacities[1::2] = -500
    decide(ctx, p, "degenerate:" + mode, tensor=True)


DEGEN = ("const", "const_axis", "zeros", "scale_beyond", "scale_all_beyond", "outlier", "infinite_opacity")


def units(tier, seed):
    th = tier == "thorough"
    u = []
    sizes = list(range(0, 1101)) + [2 ** b + d for b in range(11, 17) for d in (-1, 0, 1)] if th else \
        list(range(0, 261)) + [511, 512, 513, 514, 767, 768, 769, 770]
    for k in KS:
        for i in range(0, len(sizes), 140 if th else 68):
            u.append({"kind": "size", "k": k, "sizes": sizes[i:i + (140 if th else 68)]})
        u += [{"kind": "size", "k": k, "sizes": [n]} for n in large.BIG if n < 110000 or k == 0]
        u.append({"kind": "sh", "k": k})
    for ei in range(len(EXT_TH)):
        u.append({"kind": "code", "ei": ei})
    for fld in ("opacities", "shN", "scales", "means"):
        for part in range(4):
            u.append({"kind": "bf16", "field": fld, "part": part})
    for nm in NORMS[:12 if th else 6]:
        u.append({"kind": "quatgrid", "norm": nm})
    for big in range(4):
        u.append({"kind": "quatcode", "big": big})
    u.append({"kind": "edge"})
    for f in ATTRS:
        u.append({"kind": "layout", "field": f})
    u.append({"kind": "precision"})
    from gsmc.routes import ROUTES
    for i in range(0, len(ROUTES), 6):
        u.append({"kind": "route", "routes": ROUTES[i:i + 6]})
    return u


def run_unit(ctx, u):
    d, kd = ctx.thorough, u["kind"]
    deep = True
    if kd == "size":
        for n in u["sizes"]:
            ctx.case({"kind": kd, "n": n, "k": u["k"]}, one_size, ctx, n, u["k"])
    elif kd == "code":
        for pl in range(3):
            ctx.case({"kind": kd, "ei": u["ei"], "place": pl, "deep": True}, one_code, ctx, u["ei"], pl, True, d or pl == 0)
        ctx.sample({"extent": EXT_TH[u["ei"]]})
    elif kd == "bf16":
        ctx.case({**u, "deep": deep}, one_bf16, ctx, u["field"], u["part"], 4, deep)
    elif kd == "quatgrid":
        r = 7 if d else 5
        ctx.case({**u, "r": r}, one_quatgrid, ctx, r, u["norm"])
    elif kd == "quatcode":
        for s in (1, -1):
            for c in range(3):
                ctx.case({"kind": kd, "big": u["big"], "sign": s, "comp": c, "deep": deep}, one_quatcode, ctx, u["big"], s, c, deep)
    elif kd == "edge":
        ctx.case({"kind": "edge"}, one_quatedge, ctx)
        for m in DEGEN:
            for n in (1, 2, 3, 255, 256, 257, 300):
                ctx.case({"kind": "degen", "mode": m, "n": n}, one_degenerate, ctx, m, n)
    elif kd == "sh":
        if u["k"]:
            ctx.case({**u, "deep": d}, one_sh, ctx, u["k"], d)
    elif kd == "layout":
        for lo in LAYOUTS:
            ctx.case({**u, "layout": lo}, one_layout, ctx, lo, u["field"], 3)
    elif kd == "precision":
        for n, k in ((0, 3), (1, 0), (5, 3), (300, 0), (300, 8)):
            for pr in PRECISIONS:
                for fm in PFORMS:
                    ctx.case({"kind": kd, "prec": pr, "form": fm, "n": n, "k": k}, one_precision, ctx, pr, fm, n, k)
            for dt in ("float16", "bfloat16", "float64"):
                if n:
                    ctx.case({"kind": "tprecision", "dtype": dt, "n": n, "k": k}, one_tensor_precision, ctx, dt, n, k)
    elif kd == "route":
        for r in u["routes"]:
            for n, k in ((0, 3), (1, 0), (5, 3), (300, 8), (10007, 0)):
                if r == "none" and k:
                    continue
                ctx.case({"kind": kd, "route": r, "n": n, "k": k}, one_route, ctx, r, n, k)


def replay(ctx, c):
    kd = c["kind"]
    if kd == "size":
        ctx.case(c, one_size, ctx, c["n"], c["k"])
    elif kd == "code":
        ctx.case(c, one_code, ctx, c["ei"], c["place"], c["deep"], True)
    elif kd == "bf16":
        ctx.case(c, one_bf16, ctx, c["field"], c["part"], 4, c["deep"])
    elif kd == "quatgrid":
        ctx.case(c, one_quatgrid, ctx, c["r"], c["norm"])
    elif kd == "quatcode":
        ctx.case(c, one_quatcode, ctx, c["big"], c["sign"], c["comp"], c["deep"])
    elif kd == "precision":
        ctx.case(c, one_precision, ctx, c["prec"], c["form"], c["n"], c["k"])
    elif kd == "tprecision":
        ctx.case(c, one_tensor_precision, ctx, c["dtype"], c["n"], c["k"])
    elif kd == "edge":
        ctx.case(c, one_quatedge, ctx)
    elif kd == "degen":
        ctx.case(c, one_degenerate, ctx, c["mode"], c["n"])
    elif kd == "sh":
        ctx.case(c, one_sh, ctx, c["k"], c["deep"])
    elif kd == "layout":
        ctx.case(c, one_layout, ctx, c["layout"], c["field"], 3)
    elif kd == "route":
        ctx.case(c, one_route, ctx, c["route"], c["n"], c["k"])
