"""C03: every compressed reader and writer agrees on the format."""
import itertools

import numpy as np

from gsmc import large, refs
from gsmc.codec import agrees, check_all, cpu_writers, readers, reference, tensor_writers
from gsmc.core import need
from gsmc.data import ATTRS, KS, Plain, check, gsdata, order_of, plain_of, realistic
from gsmc.packed import check_decoded, chunk_extents
from gsmc.routes import ROUTES, build

LEVEL = "exploration"
RULE = ("Readers: hand-assembled compressed files in which every value of every packed field occurs (all 2048/1024 codes of positions and scales under "
        "each bound pair, all 256 colour/opacity/SH codes, all 4x1024 codes of each rotation component beside a grid of other components), every "
        "file read through all 11 readers (the tensor ones with several spellings of the device) and compared with a float64 decoder of the published format; every size in range for the chunk "
        "assignment. Writers: every size x degree x construction route written by 17 CPU entry points (compared byte for byte), whose output must "
        "be strictly well-formed to an independent parser, and by 5 tensor entry points (same layout, decodes within one step). "
        "Evaluations count reader runs and writer runs; distinct ones are hashed by the file bytes.")
BOUND = {
    "quick": "reader sizes 0..300, 511..514, 767..770 and 18 sizes from 4095 to 200,003; all field codes x 12 bound pairs; writers: sizes 0..6, 255..258, 513 x 4 degrees x 23 routes for N<=5, 2 routes beyond; 10,007, 33,001, 65,536, 100,003",
    "thorough": "reader sizes 0..1100; all field codes x 40 bound pairs; rotation components beside 33x33 others; writers: sizes 0..40, 250..260, 510..516 x 4 degrees x 23 routes",
}
ASSUMPTIONS = ["CPU tensors only", "little-endian host"]
WARM = ["cpu", "flat", "cons"]


def warm(ctx, w):
    import gsply
    k = {"cpu": 0, "flat": 3, "cons": 3}[w]
    p = realistic(20, k)
    g = gsdata(p) if w != "cons" else gsdata(p).consolidate()
    b = gsply.compress_to_bytes(g)
    gsply.decompress_from_bytes(b)


def tone(n):
    """A deterministic full-range 32-bit sequence."""
    i = np.arange(n, dtype=np.uint64)
    return ((i * 2654435761 + 12345) & 0xFFFFFFFF).astype(np.uint32)


def mkchunk(c, lo=None, hi=None):
    """Bounds that differ per chunk by large factors."""
    i = np.arange(c, dtype=np.float64)[:, None]
    mn = -(1.0 + i * 10) * np.array([[1, 2, 3]])
    mx = mn + (0.5 + 3.0 * i) * np.array([[1, 0.25, 2]])
    smn = np.clip(-12 + (i % 9) + np.array([[0, .5, 1]]), -20, 20)
    smx = np.clip(smn + 1 + (i % 5), -20, 20)
    cmn = -0.5 + 0.1 * (i % 7) + np.array([[0, .05, .1]])
    cmx = cmn + 0.3 + 0.2 * (i % 4)
    return np.concatenate([mn, mx, smn, smx, cmn, cmx], 1).astype(np.float32)


def one_size(ctx, n, k):
    c = (n + 255) // 256
    chunk = mkchunk(c)
    v = np.stack([tone(n), np.roll(tone(n), 3) ^ 0x5A5A5A5A, np.roll(tone(n), 7), np.roll(tone(n), 11) ^ 0xFFFF], 1).astype(np.uint32).reshape(n, 4)
    sh = None if k == 0 else ((np.arange(n)[:, None] * 7 + np.arange(3 * k)[None] * 5) % 256).astype(np.uint8)
    b = refs.packed_bytes(chunk, v, sh)
    ctx.saw(b)
    check_all(ctx, b, reference(chunk, v, sh), "size")


PAIRS = [(0, 1), (-1, 1), (1000, 1000.5), (-20, 20), (0, 1e-6), (-1e6, 1e6), (3, 3), (-5.25, -5), (5, -5), (-0.0, 0.1), (0.3, 0.7), (-1e-30, 1e-30)]
PAIRS_TH = PAIRS + [(a * s, a * s + w) for s in (1, -1) for a in (0.1, 5.0, 77.7) for w in (1e-3, 0.37, 2.5, 19)] + [(1e30, 2e30), (0, 0), (20, -20), (-3, 1e9)]


def one_codes(ctx, pi):
    lo, hi = PAIRS_TH[pi]
    n = 2048 * 2
    c = n // 256
    i = np.arange(n, dtype=np.uint32)
    x, y, z = i % 2048, (i * 5 + 3) % 1024, (i * 3 + 1) % 2048
    pos = (x << 21) | (y << 11) | z
    x2, y2, z2 = (i * 7 + 11) % 2048, (i + 512) % 1024, (2047 - i % 2048)
    sc = (x2 << 21) | (y2 << 11) | z2
    r, g, b, o = i % 256, (i * 3 + 7) % 256, (i * 5 + 9) % 256, (i * 7 + 1 + i // 256) % 256
    col = (r << 24) | (g << 16) | (b << 8) | o
    chunk = np.zeros((c, 18), np.float32)
    a3 = np.array([1.0, 0.5, 0.25])
    for j, (l, h) in enumerate(((0, 3), (6, 9), (12, 15))):
        chunk[:, l:l + 3] = lo + 0.0 * a3
        chunk[:, h:h + 3] = hi
    v = np.stack([pos, tone(n), sc, col], 1).astype(np.uint32)
    blob = refs.packed_bytes(chunk, v)
    ctx.saw(blob)
    check_all(ctx, blob, reference(chunk, v, None), "codes")


def one_rot(ctx, big, comp, grid):
    """Component `comp` takes all 1024 codes beside a grid of the other two."""
    other = np.unique(np.linspace(0, 1023, grid).round().astype(np.uint32))
    a, b = np.meshgrid(other, other)
    a, b = a.ravel(), b.ravel()
    n = 1024 * len(a)
    sweep = np.tile(np.arange(1024, dtype=np.uint32), len(a))
    A, B = np.repeat(a, 1024), np.repeat(b, 1024)
    cs = [None] * 3
    cs[comp], cs[(comp + 1) % 3], cs[(comp + 2) % 3] = sweep, A, B
    q = (np.uint32(big) << np.uint32(30)) | (cs[0] << 20) | (cs[1] << 10) | cs[2]
    v = np.zeros((n, 4), np.uint32)
    v[:, 1] = q
    chunk = mkchunk((n + 255) // 256)
    blob = refs.packed_bytes(chunk, v)
    ctx.saw(blob)
    check_all(ctx, blob, reference(chunk, v, None), "rotation")


def one_sh(ctx, k):
    """Every code in every coefficient position."""
    n = 256 + 3 * k
    sh = ((np.arange(n)[:, None] + np.arange(3 * k)[None]) % 256).astype(np.uint8)
    v = np.stack([tone(n)] * 4, 1)
    chunk = mkchunk(2)
    blob = refs.packed_bytes(chunk, v, sh)
    ctx.saw(blob)
    d = reference(chunk, v, sh)
    check_all(ctx, blob, d, "sh")
    for nm, rd in readers().items():
        g = rd(ctx, blob)
        deg = {3: 1, 8: 2, 15: 3}[k]
        need(g.get_sh_degree() == deg and order_of(g) == deg, f"sh:{nm}:degree", lambda: f"{g.get_sh_degree()} {order_of(g)} expected {deg}")


# --- writers -----------------------------------------------------------------------------------

def one_write(ctx, n, k, route):
    import gsply
    p = realistic(n, k, n)
    c = np.arange(n) // 256
    p.means = (p.means * (0.1 * 9.0 ** (c % 3))[:, None]).astype(np.float32)
    if n < 40:            # unmistakably PLY units, also for the automatic rule used with raw arrays
        p.opacities[0:1] = -4.5
    g = build(route, p, ctx)
    ref = None
    for nm, w in cpu_writers().items():
        if "flat" in nm and k == 0:
            continue
        ctx.beat()
        ctx.evaluations += 1
        b = w(ctx, g)
        if ref is None:
            ref = (nm, b)
            try:
                chunk, vert, sh = refs.split_packed(b)
            except refs.BadPly as e:
                need(False, f"write:{nm}:malformed", str(e))
            need(len(vert) == n and (sh.shape[1] // 3 if sh is not None else 0) == k, f"write:{nm}:counts", lambda: f"{len(vert)} {sh is not None}")
            d = refs.unpack(chunk, vert, sh)
            q = Plain(*[d[a] for a in ATTRS])
            check_decoded(q, p, f"write:{nm}")
            ctx.saw(b, route)
        need(b == ref[1], f"write:{nm}:differs", lambda: f"{nm} wrote {len(b)} bytes that differ from those of {ref[0]} ({len(ref[1])}); first difference at {next((i for i, (x, y) in enumerate(zip(b, ref[1])) if x != y), 'the end')}")
    if n and route in ("ctor", "file", "slice_cons", "concat"):
        t = gsply.GSTensor.from_gsdata(g, device="cpu")
        head = ref[1][:ref[1].index(b"end_header\n") + 11]
        dref = refs.unpack(*refs.split_packed(ref[1]))
        first = None
        for nm, w in tensor_writers().items():
            ctx.evaluations += 1
            b = w(ctx, t)
            need(b[:len(head)] == head and len(b) == len(ref[1]), f"write:{nm}:layout", lambda: f"header {b[:200]!r} of {len(b)} bytes differs from the CPU writer's")
            first = first or b
            need(b == first, f"write:{nm}:differs", "the tensor writers disagree with each other")
        d = refs.unpack(*refs.split_packed(first))
        one_step(d, dref, p)


def one_step(d, e, p):
    for a, st in (("means", (2047, 1023, 2047)), ("scales", (2047, 1023, 2047)), ("sh0", (255, 255, 255))):
        lo, hi = chunk_extents(getattr(p, a).astype(np.float64))
        lim = 1.01 * (hi - lo) / np.array(st) + 2e-6 * np.maximum(np.abs(lo), np.abs(hi)) + 2e-6
        need(bool((np.abs(d[a] - e[a]) <= lim).all()), f"tensor:{a}", lambda: f"{a}: tensor and CPU files decode more than a step apart")
    pd, pe = [np.where(o["opacities"] <= -10, 0, np.where(o["opacities"] >= 10, 1, refs.sigmoid(o["opacities"]))) for o in (d, e)]
    need(bool((np.abs(pd - pe) <= 1.01 / 255).all()), "tensor:opacities", "opacities decode more than a step apart")
    dq = np.minimum(np.abs(d["quats"] - e["quats"]).max(1), np.abs(d["quats"] + e["quats"]).max(1))
    need(bool((dq <= 3.5 * refs.SQ2 / 1023).all()), "tensor:quats", lambda: f"rotations decode {dq.max()} apart")
    need(d["shN"].shape == e["shN"].shape and bool((np.abs(d["shN"] - e["shN"]) <= 1.01 / 32).all()), "tensor:shN", "SH decode more than a step apart")


def one_empty_tensor(ctx, k):
    """An empty tensor scene: written like the CPU writer does, or refused with an error."""
    import gsply
    p = realistic(0, k)
    t = gsply.GSTensor.from_gsdata(gsdata(p), device="cpu")
    ref = gsply.compress_to_bytes(gsdata(p))
    for nm, w in tensor_writers().items():
        ctx.evaluations += 1
        try:
            b = w(ctx, t)
        except Exception:   # noqa: BLE001 - refusing is allowed
            continue
        need(b == ref, f"empty:{nm}", "an empty tensor scene is written differently")


def units(tier, seed):
    th = tier == "thorough"
    u = []
    sizes = list(range(0, 1101)) if th else list(range(0, 301)) + [511, 512, 513, 514, 767, 768, 769, 770]
    for k in KS:
        step = 140 if th else 78
        for i in range(0, len(sizes), step):
            u.append({"kind": "size", "k": k, "sizes": sizes[i:i + step]})
        u += [{"kind": "size", "k": k, "sizes": [n]} for n in large.BIG[3:] if (n < 110000 and (th or k < 8 or n in (4099, 10007, 65536, 65537))) or k == 0]
        u.append({"kind": "empty", "k": k})
        if k:
            u.append({"kind": "sh", "k": k})
    for pi in range(len(PAIRS_TH)):
        u.append({"kind": "codes", "pi": pi})
    for big in range(4):
        for comp in range(3):
            u.append({"kind": "rot", "big": big, "comp": comp, "grid": 33 if th else 13})
    ws = list(range(0, 41)) + list(range(250, 261)) + list(range(510, 517)) if th else list(range(0, 7)) + [255, 256, 257, 258, 513]
    for k in KS:
        for i in range(0, len(ROUTES), 4):
            u.append({"kind": "write", "k": k, "sizes": ws, "routes": ROUTES[i:i + 4]})
        for n in (10007, 33001, 65536, 100003):
            if k == 0 or n < 20000 or th:
                u += [{"kind": "write", "k": k, "sizes": [n], "routes": [r]} for r in (("ctor", "file") if th else ("ctor",))]
    return u


def run_unit(ctx, u):
    kd = u["kind"]
    if kd == "size":
        for n in u["sizes"]:
            ctx.case({"kind": kd, "n": n, "k": u["k"]}, one_size, ctx, n, u["k"])
    elif kd == "codes":
        ctx.case(u, one_codes, ctx, u["pi"])
        ctx.sample({"bounds": PAIRS_TH[u["pi"]]})
    elif kd == "rot":
        ctx.case(u, one_rot, ctx, u["big"], u["comp"], u["grid"])
    elif kd == "sh":
        ctx.case(u, one_sh, ctx, u["k"])
    elif kd == "empty":
        ctx.case(u, one_empty_tensor, ctx, u["k"])
    else:
        for r in u["routes"]:
            for n in u["sizes"]:
                if (r == "none" and u["k"]) or (not ctx.thorough and n > 5 and r not in ("ctor", "file")):
                    continue
                ctx.case({"kind": "write", "n": n, "k": u["k"], "route": r}, one_write, ctx, n, u["k"], r)


def replay(ctx, c):
    kd = c["kind"]
    if kd == "size":
        ctx.case(c, one_size, ctx, c["n"], c["k"])
    elif kd == "write":
        ctx.case(c, one_write, ctx, c["n"], c["k"], c["route"])
    else:
        run_unit(ctx, c)
