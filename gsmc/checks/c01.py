"""C01: uncompressed save/load is lossless and standard."""
import itertools
import os

import numpy as np

from gsmc import large, refs
from gsmc.core import need
from gsmc.data import KS, LAYOUTS, check, fmt, gsdata, lay, plain_of, realistic, same, snapshot, special, unique
from gsmc.routes import PFORMS, PRECISIONS, ROUTES, build, build_precision

LEVEL = "exploration"
RULE = ("Exhaustive product of scene size x SH degree x (construction route or memory layout) x save entry point x load entry "
        "point, every cell of the scene carrying its own value (or a rotating special bit pattern). A case is one save followed "
        "by a byte comparison with an independently generated standard file and all loads; it is non-trivial when N>0, and "
        "distinct when (size, degree, route/layout, save entry, values) differ, counted by a hash of that tuple and the bytes.")
BOUND = {
    "quick": "sizes 0..320, 511..513, 1023..1025, 4097, 21 sizes from 2047 to 200,003 x 4 degrees (fast entries); sizes 10,007 and 33,001 x all routes; sizes {0,1,2,3,4,5,7,257} x 4 degrees x 23 routes x 10 save "
             "entries; {0,1,3,5} x 8 layouts x routes; one >10 MB file per degree; all special bit patterns in all columns",
    "thorough": "sizes 0..2100 and powers of two +-1 up to 131073 x 4 degrees; sizes {0..12, 255..257} x 4 degrees x 23 routes x "
                "10 save entries; 0..9 x 8 layouts x 23 routes; three >10 MB files per degree; all special bit patterns",
}
ASSUMPTIONS = ["CPU tensors only (no CUDA device in the sandbox)", "little-endian host"]
WARM = ["all"]


def warm(ctx, _):
    for k in KS:
        p = realistic(4, k)
        for r in ("ctor", "cons", "file"):
            g = build(r, p, ctx)
            save_all(ctx, g, p, "warm")


SAVES = ("plywrite", "arrays", "arrays2d", "save", "write", "write_noval", "t_save", "t_plywrite", "t_double", "t_cons")


def save(entry, ctx, g, path):
    """Run one save entry point. Returns False when the entry does not apply."""
    import gsply
    from gsply.writer import write_uncompressed
    if entry == "plywrite":
        gsply.plywrite(path, g)
    elif entry in ("arrays", "arrays2d"):
        shn = g.shN
        if entry == "arrays2d":
            if shn is None or shn.shape[1] == 0:
                return False
            shn = np.asarray(shn)
            shn = shn.transpose(0, 2, 1).reshape(len(g), shn.shape[1] * 3)
        gsply.plywrite(path, g.means, g.scales, g.quats, g.opacities, g.sh0, shn)
    elif entry == "save":
        g.save(path)
    elif entry == "write":
        write_uncompressed(path, g)
    elif entry == "write_noval":
        write_uncompressed(path, g, validate=False)
    else:
        for a in ("means", "scales", "quats", "opacities", "sh0", "shN"):
            x = getattr(g, a)
            if x is not None and (x.dtype.byteorder == ">" or any(s < 0 for s in x.strides) or not x.flags.writeable):
                return False
        t = gsply.GSTensor.from_gsdata(g, device="cpu")
        if entry == "t_save":
            t.save(path, compressed=False)
        elif entry == "t_plywrite":
            gsply.plywrite(path, t)
        elif entry == "t_double":
            t.double().save(path, compressed=False)
        elif entry == "t_cons":
            t.consolidate().save(path, compressed=False)
    return True


LOADS = ("plyread", "load", "read", "t_load", "plyread_str")


def load(entry, path):
    import gsply
    from gsply.reader import read_uncompressed
    if entry == "plyread":
        from pathlib import Path
        return gsply.plyread(Path(path))
    if entry == "plyread_str":
        return gsply.plyread(str(path))
    if entry == "load":
        return gsply.GSData.load(path)
    if entry == "read":
        return read_uncompressed(path)
    return gsply.GSTensor.load(path, device="cpu")


def save_all(ctx, g, p, tag, saves=SAVES, loads=LOADS, raw=True, label=()):
    want = refs.std_bytes(p)
    before = snapshot(g)
    for s in saves:
        if s.startswith("arrays") and not raw:
            continue
        f = ctx.path("o.ply")
        if os.path.exists(f):
            os.unlink(f)
        ctx.beat()
        if not save(s, ctx, g, f):
            continue
        ctx.evaluations += 1
        with open(f, "rb") as h:
            got = h.read()
        if got != want:
            explain(got, p, f"{tag}:{s}")
        if len(p):
            ctx.saw(tag, s, len(p), p.k, label, want[-64:])
        for ld in loads:
            check(load(ld, f), p, f"{tag}:{s}->{ld}", masks=False)
    need(snapshot(g) == before, f"{tag}:source-changed", "saving changed the scene")


def explain(got, p, tag):
    try:
        k, t = refs.split_uncompressed(got)
    except refs.BadPly as e:
        need(False, f"{tag}:not-standard", f"the file is not a standard PLY file: {e}; header {got[:300]!r}")
    need(k == p.k, f"{tag}:degree", f"{k} bands stored, expected {p.k}")
    w = p.table()
    need(t.shape == w.shape, f"{tag}:shape", f"{t.shape} stored, expected {w.shape}")
    bad = np.argwhere(t.view(np.uint32) != w.view(np.uint32))
    if len(bad):
        i, j = bad[0]
        need(False, f"{tag}:value", f"row {i} {refs.std_names(k)[j]} stored {t[i, j]!r}, expected {w[i, j]!r} ({len(bad)} cells)")
    # the same values with another header text would still be a standard file


def units(tier, seed):
    th = tier == "thorough"
    u = []
    sizes = list(range(0, 2101)) if th else list(range(0, 321)) + [511, 512, 513, 1023, 1024, 1025, 4097]
    if th:
        for b in range(12, 18):
            sizes += [2 ** b - 1, 2 ** b, 2 ** b + 1]
    for k in KS:
        for i in range(0, len(sizes), 264 if th else 83):
            u.append({"kind": "sizes", "k": k, "sizes": sizes[i:i + (264 if th else 83)]})
    for k in KS:
        u += [{"kind": "sizes", "k": k, "sizes": [n]} for n in large.BIG if n < 110000 or k == 0]
        u += [{"kind": "routes", "k": k, "sizes": [n], "routes": rr, "few": 1} for n in (10007, 33001) if n < 20000 or k == 0 or th for rr in (ROUTES[:8], ROUTES[8:16], ROUTES[16:])]
    rs = list(range(0, 13)) + [255, 256, 257] if th else [0, 1, 2, 3, 4, 5, 7, 257]
    for k in KS:
        for rr in (ROUTES[:8], ROUTES[8:16], ROUTES[16:]):
            u.append({"kind": "routes", "k": k, "sizes": rs, "routes": rr})
        u.append({"kind": "layouts", "k": k, "sizes": list(range(0, 10)) + [65, 300, 1003] if th else [0, 1, 3, 5, 300]})
        u.append({"kind": "precision", "k": k, "sizes": [0, 1, 2, 3, 5, 257, 1003] if th else [0, 1, 2, 5, 300]})
        u.append({"kind": "specials", "k": k})
        u.append({"kind": "external", "k": k})
        u.append({"kind": "big", "k": k, "extra": 3 if th else 1})
    return u


def run_unit(ctx, u):
    k = u["k"]
    if u["kind"] == "sizes":
        for n in u["sizes"]:
            for r in ("ctor", "cons"):
                ctx.case({"kind": "size", "n": n, "k": k, "route": r}, one_size, ctx, n, k, r)
    elif u["kind"] == "routes":
        for n in u["sizes"]:
            for r in u["routes"]:
                ctx.case({"kind": "route", "n": n, "k": k, "route": r}, one_route, ctx, n, k, r, "C", ("plywrite", "arrays", "save", "t_save") if u.get("few") else SAVES)
    elif u["kind"] == "layouts":
        for n in u["sizes"]:
            for lo in LAYOUTS:
                for r in ROUTES if ctx.thorough else ("ctor", "arrays", "cons", "slice", "slice_cons", "copy", "concat", "add", "tensor", "contig"):
                    ctx.case({"kind": "layout", "n": n, "k": k, "route": r, "layout": lo}, one_route, ctx, n, k, r, lo,
                             ("plywrite", "arrays", "arrays2d", "save", "write_noval", "t_save"))
    elif u["kind"] == "precision":
        for n in u["sizes"]:
            for pr in PRECISIONS:
                for fm in PFORMS:
                    ctx.case({"kind": "precision", "n": n, "k": k, "prec": pr, "form": fm}, one_precision, ctx, n, k, pr, fm)
    elif u["kind"] == "specials":
        for n in (1, 2, 19, 20) if not ctx.thorough else range(1, 45):
            for r in ("ctor", "cons", "slice_cons", "file", "concat", "tensor_cons", "copy", "contig"):
                ctx.case({"kind": "special", "n": n, "k": k, "route": r}, one_special, ctx, n, k, r)
    elif u["kind"] == "external":
        for n in (0, 1, 2, 5, 300):
            for v in range(len(HEADERS)):
                ctx.case({"kind": "external", "n": n, "k": k, "v": v}, one_external, ctx, n, k, v)
    elif u["kind"] == "big":
        per = (14 + 3 * k) * 4
        n0 = 10_000_000 // per
        for j in range(u["extra"]):
            n = n0 + (j * 7 - 1 if j else 1)
            for r in ("ctor", "cons"):
                ctx.case({"kind": "big", "n": n, "k": k, "route": r}, one_size, ctx, n, k, r)


def one_size(ctx, n, k, r):
    p = unique(n, k, n % 5)
    g = build(r, p, ctx)
    save_all(ctx, g, p, "size", ("plywrite", "arrays"), ("plyread", "t_load"), label=r)
    ctx.sample({"n": n, "k": k, "route": r, "first_row": p.table()[:1].tolist()}) if n == 3 and k == 0 else None


def one_route(ctx, n, k, r, lo, saves):
    p = unique(n, k, 3)
    g = build(r, p, ctx, lo)
    import gsply
    dt = None if lo in ("f64", "be") else np.float32
    same(plain_of(g), p, f"route:{r}", dtype=dt, masks=False)
    save_all(ctx, g, p, f"route:{r}", saves, raw=r != "none" or k != 0 or True, label=(r, lo))


def one_precision(ctx, n, k, pr, fm):
    """Arrays of half or double precision (also as one base array) are stored as the nearest single-precision values."""
    p = unique(n, k, 4)
    p.means = (p.means / 8).astype(np.float32)
    g, w = build_precision(pr, fm, p)
    save_all(ctx, g, w, f"precision:{pr}:{fm}", ("plywrite", "arrays", "arrays2d", "save", "write_noval", "t_save", "t_double"), ("plyread",), label=(pr, fm))


def one_special(ctx, n, k, r):
    p = special(n, k, n)
    g = build(r, p, ctx)
    save_all(ctx, g, p, f"special:{r}", tuple(s for s in SAVES if s not in ("t_double", "arrays", "arrays2d")), label=r)


HEADERS = [
    {}, {"after_magic": "comment written by another tool"}, {"after_format": "comment a\ncomment b"},
    {"before_end": "comment trailing"}, {"after_element": "comment in element"}, {"after_format": "obj_info x"},
    {"after_format": "comment " + "x" * 500}, {"after_format": "\n".join("comment %04d" % i for i in range(400))},
    {"after_magic": "comment element vertex 7"}, {"after_format": "comment property float x"},
    {"after_props": {2: "comment middle"}},
]


def one_external(ctx, n, k, v):
    p = unique(n, k, v)
    f = ctx.path("e.ply")
    with open(f, "wb") as h:
        h.write(refs.std_bytes(p, **HEADERS[v]))
    for ld in LOADS:
        g = load(ld, f)
        check(g, p, f"external:{ld}", masks=False)
        ctx.evaluations += 1
    # and a file read is written back as the standard file
    save_all(ctx, load("plyread", f), p, "external", ("plywrite", "write", "t_save"), ("plyread",), label=v)


def replay(ctx, c):
    kd = c.get("kind")
    if kd in ("size", "big"):
        ctx.case(c, one_size, ctx, c["n"], c["k"], c["route"])
    elif kd == "route":
        ctx.case(c, one_route, ctx, c["n"], c["k"], c["route"], "C", SAVES)
    elif kd == "layout":
        ctx.case(c, one_route, ctx, c["n"], c["k"], c["route"], c["layout"], SAVES)
    elif kd == "precision":
        ctx.case(c, one_precision, ctx, c["n"], c["k"], c["prec"], c["form"])
    elif kd == "special":
        ctx.case(c, one_special, ctx, c["n"], c["k"], c["route"])
    elif kd == "external":
        ctx.case(c, one_external, ctx, c["n"], c["k"], c["v"])
    else:
        run_unit(ctx, c.get("unit", c))
