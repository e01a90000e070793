"""C11: a truncated file, or one with inconsistent element counts, is rejected and never misread."""
import itertools
import os
import shutil

import numpy as np

from gsmc import refs, sog
from gsmc.core import need
from gsmc.data import KS, plain_of, realistic, unique
from gsmc.codec import agrees, reference
from gsmc.shim import storage

LEVEL = "fault_enumeration"
RULE = ("Every proper prefix (every byte position) of every valid file in a family (4 uncompressed layouts x sizes, compressed with 0..3 chunks x degrees, comment and "
        "over-8KB headers, SOG archives of both versions, and each member of a SOG archive) is given to every entry point; and every combination of chunk/vertex/sh "
        "counts from a list, with exactly the data it claims, one byte less, or the original data. A case is (file, cut or counts, entry point); it is non-trivial when "
        "the reader had to reject (or, for the intact control, to accept), distinct by that triple.")
BOUND = {
    "quick": "prefixes: 4 degrees x N in {0,1,2,3}, compressed x N in {0,1,3,257,300}; N of 4001 to 190,003 (files to 10.6 MB) at the header and around block, row and section ends; every byte for N<=3, every byte of header and every field boundary +-1 beyond; "
             "8.5 KB header; counts from {0,1,2,3,255,256,257,512,513,1000} cubed and 24 malformed or huge counts; SOG v2/v3 x degrees 0..3 every byte of archive and members; the same files complete but unreadable from each of those bytes on, and with torn/interrupted reads",
    "thorough": "every byte for every file (N up to 600, 3 chunks), 9 header families, SOG palettes of two rows, stored and deflated archives",
}
ASSUMPTIONS = ["any Exception (or None from the low-level read_* functions, documented) counts as rejection", "format detection looks at the header only: on a prefix "
               "that still contains the whole header either answer is accepted", "the file does not change while it is read", "unreadable sectors, short and interrupted reads are injected at the C library boundary"]
WARM = ["c", "t", "sog"]
SHIM = True
HANG = 120


# --- readers ------------------------------------------------------------------------------------

def ply_readers():
    import gsply
    from gsply.reader import read_compressed, read_uncompressed
    from gsply.torch.compression import read_compressed_gpu
    T = gsply.GSTensor
    return {   # name: (fn(path), kinds it accepts)
        "plyread": (gsply.plyread, "uc"),
        "GSData.load": (gsply.GSData.load, "uc"),
        "read_uncompressed": (read_uncompressed, "u"),
        "read_compressed": (read_compressed, "c"),
        "bytes": (None, "c"),
        "GSTensor.load": (lambda f: T.load(f, device="cpu"), "uc"),
        "plyread_gpu": (lambda f: gsply.plyread_gpu(f, device="cpu"), "c"),
        "from_compressed": (lambda f: T.from_compressed(f, device="cpu"), "c"),
        "read_compressed_gpu": (lambda f: read_compressed_gpu(f, device="cpu"), "c"),
    }


def attempt(fn, arg):
    """The scene returned, or None when rejected."""
    try:
        return fn(arg)
    except MemoryError:
        return None
    except Exception:  # noqa: BLE001
        return None


def must_reject(ctx, nm, fn, arg, what):
    ctx.evaluations += 1
    r = attempt(fn, arg)
    need(r is None, f"misread:{nm}:{what[0]}", lambda: f"{nm} returned a scene of {len(r)} Gaussians from {what[1]}")


# --- valid files --------------------------------------------------------------------------------

def packed(n, k, extra=""):
    i = np.arange(n * 4, dtype=np.uint64).reshape(n, 4)
    vert = ((i * 2654435761 + 12345) % (1 << 32)).astype(np.uint32)
    c = (n + 255) // 256
    j = np.arange(c * 18, dtype=np.float64).reshape(c, 18)
    lo = -1.0 - j % 5
    chunk = np.empty((c, 18))
    for a, b in ((0, 3), (6, 9), (12, 15)):
        chunk[:, a:a + 3] = lo[:, a:a + 3]
        chunk[:, b:b + 3] = lo[:, a:a + 3] + 1 + j[:, b:b + 3] % 3
    sh = None if k == 0 else ((np.arange(n * 3 * k).reshape(n, 3 * k) * 7 + 3) % 256).astype(np.uint8)
    return chunk.astype(np.float32), vert, sh


HEADERS = {
    "plain": {},
    "comments": dict(after_magic="comment end_header\ncomment made by", after_element="comment property float fake", before_end="comment bye"),
    "long": dict(after_format="\n".join(["comment " + "x" * 90] * 90)),
    "edge": dict(after_format="comment " + "y" * 7300),
}


def blob(f):
    n, k = f["n"], f["k"]
    if f["kind"] == "u":
        return refs.std_bytes(unique(n, k), **HEADERS[f.get("h", "plain")])
    h = HEADERS[f.get("h", "plain")]
    ex = h.get("after_format") or h.get("after_magic") or ""
    return refs.packed_bytes(*packed(n, k), extra=ex)


def cuts(f, b, tier):
    """Byte positions to cut at (every one, or header + every field boundary +-1 for the larger files in the quick tier)."""
    if len(b) < 3000 or (tier == "thorough" and f.get("h") != "long"):
        return range(len(b))
    hd = b.index(b"\nend_header\n") + 12
    if f["n"] > 3000:
        # large files: the header, every block boundary of 1 MB, powers of two, and row and section ends
        s = {0, 1, hd - 1, hd, hd + 1, hd + 55, hd + 72, len(b) // 2, len(b) // 3 * 2} | set(range(len(b) - 61, len(b))) | set(range(0, hd, 37))
        row = (len(b) - hd) / max(f["n"], 1)
        for i in [1 << e for e in range(12, 25)] + [x << 20 for x in range(1, 11)] + [len(b) - x for x in (4096, 8192, 65536, 10_000_000)] + [hd + int(row * x) for x in (1, 256, f["n"] - 256, f["n"] - 1)] \
                + [hd + (f["n"] + 255) // 256 * 72, hd + (f["n"] + 255) // 256 * 72 + 16 * f["n"], 10_000_000]:
            s |= {i - 1, i, i + 1}
        return sorted(x for x in s if 0 <= x < len(b))
    s = set(range(len(b) - 130, len(b)))
    if f.get("h") in ("long", "edge"):
        s |= set(range(0, 300)) | set(range(300, hd - 300, 97)) | set(range(hd - 300, len(b))) | {8191, 8192, 8193}
    else:
        s |= set(range(min(hd + 80, len(b))))
        step = 4 if f["kind"] == "u" else 8
        for i in range(hd, len(b), step):
            s |= {i - 1, i, i + 1}
    return sorted(x for x in s if 0 <= x < len(b))


def control(ctx, f, b, name):
    """The intact file is accepted with the right contents by every entry point that supports it."""
    import gsply
    p = ctx.path(name)
    with open(p, "wb") as h:
        h.write(b)
    for nm, (fn, kinds) in ply_readers().items():
        if nm == "GSTensor.load" and name.endswith(".compressed.ply") != (f["kind"] == "c"):
            continue
        ctx.evaluations += 1
        r = attempt(gsply.decompress_from_bytes, b) if nm == "bytes" else attempt(fn, p)
        if f["kind"] not in kinds:
            need(r is None, f"control:{nm}", f"{nm} accepted a file of the other kind")
            continue
        need(r is not None, f"control:{nm}:rejected", lambda: f"{nm} rejected a valid file {f}")
        got = plain_of(r)
        if f["kind"] == "u":
            w = unique(f["n"], f["k"])
            need(all(np.array_equal(x, y) for x, y in zip(got.arrays(), w.arrays())), f"control:{nm}:values", "values differ")
        else:
            agrees(got, reference(*packed(f["n"], f["k"])), f"control:{nm}")
        ctx.saw("control", nm, f)


def prefix(ctx, f):
    import gsply
    b = blob(f)
    hd = b.index(b"\nend_header\n") + 12
    for name in ("p.ply", "p.compressed.ply"):
        control(ctx, f, b, name)
    rd = ply_readers()
    cut = list(cuts(f, b, ctx.tier)) if "cut" not in f else [f["cut"]]
    for name in ("p.compressed.ply", "p.ply"):
        p = ctx.path(name)
        with open(p, "wb") as h:
            h.write(b)
        for i in reversed(cut):
            os.truncate(p, i)
            c = {**f, "cut": i}
            ctx.beat(c)
            what = (f"prefix:{f['kind']}:{'header' if i < hd else 'data'}", f"the first {i} of {len(b)} bytes of {f}")
            try:
                for nm, (fn, _) in rd.items():
                    if nm == "GSTensor.load" or name == "p.ply" and nm != "bytes":
                        must_reject(ctx, nm, fn, p, what)
                        ctx.saw(nm, i, f, name)
                if name == "p.ply":
                    must_reject(ctx, "bytes", gsply.decompress_from_bytes, b[:i], what)
                    if i < hd:
                        d = gsply.detect_format(p)
                        ctx.evaluations += 1
                        need(d == (False, None), "detect:prefix", lambda: f"detect_format says {d} for the first {i} of {hd} header bytes")
            except Exception as e:  # noqa: BLE001
                ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), c)
                return
    for name in ("p.ply", "p.compressed.ply"):
        os.unlink(ctx.path(name))


def badread(ctx, f):
    """The file is complete, but from some byte on it cannot be read, or reads are torn or interrupted: the right scene or none."""
    b = blob(f)
    w = unique(f["n"], f["k"]) if f["kind"] == "u" else None
    ref = None if w else reference(*packed(f["n"], f["k"]))
    d = ctx.path("bad")
    os.makedirs(d, exist_ok=True)
    rd = ply_readers()
    del rd["bytes"], rd["GSData.load"]
    modes = [{"rchunk": m, "reintr": i} for m in (1, 2, 3, 7, 64, 4096, 8191, 8192, 8193, len(b) - 1) if m > 0 for i in (0, 1)] + [{"reintr": 1}]
    modes += [{"bad": i} for i in cuts(f, b, ctx.tier)]
    if f["n"] > 3000:
        modes = modes[11:12] + modes[16:21] + modes[21::1 if ctx.thorough else 9]
    elif f["n"] > 3:
        modes = modes[:21] + modes[21::5 if ctx.thorough else 23]
    for name in ("p.ply", "p.compressed.ply"):
        p = os.path.join(d, name)
        with open(p, "wb") as h:
            h.write(b)
        for m in ([f["mode"]] if "mode" in f else modes):
            c = {**f, "mode": m}
            ctx.beat(c)
            try:
                for nm, (fn, kinds) in rd.items():
                    if name != "p.ply" and (nm != "GSTensor.load" or f["kind"] != "c"):
                        continue
                    ctx.evaluations += 1
                    with storage(d, **m) as cnt:
                        r = attempt(fn, p)
                    if r is None:
                        need("bad" in m or f["kind"] not in kinds or nm == "GSTensor.load", f"badread:rejected:{nm}", f"{nm} rejects a valid file when reads return less than asked for or are interrupted ({m})")
                        continue
                    got = plain_of(r)
                    if w:
                        need(all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(got.arrays(), w.arrays())), f"badread:{nm}", f"{nm} returned a scene with other values from a file that could not be read completely ({m}, {cnt.refused} reads failed)")
                    else:
                        agrees(got, ref, f"badread:{nm}")
                    ctx.saw("badread", c, nm)
            except Exception as e:  # noqa: BLE001
                ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), c)
                return
            ctx.saw("badread", c)
    shutil.rmtree(d, ignore_errors=True)


def badread_sog(ctx, u):
    import gsply
    s = sog.simple(u["ver"], u["n"], u["deg"], u["pal"])
    fs = s.files()
    d = ctx.path("badsog")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "folder"))
    z = sog.zipped(fs, u["z"])
    want = plain_of(gsply.sogread(z))
    put = {"a.sog": z, **{"folder/" + n: x for n, x in fs.items()}}
    for n, x in put.items():
        with open(os.path.join(d, n), "wb") as h:
            h.write(x)
    for n, x in put.items():
        # only this file is affected
        for i in ([u["at"]] if "at" in u else list(range(0, len(x), 1 if ctx.thorough or len(x) < 400 else 3))):
            if "name" in u and u["name"] != n:
                continue
            c = {**u, "name": n, "at": i}
            ctx.beat(c)
            sub = os.path.join(d, "folder") if "/" in n else d
            arg = sub if "/" in n else os.path.join(d, n)
            ctx.evaluations += 1
            with storage(sub, bad=i) if "/" not in n else storage(os.path.join(d, n), bad=i) as cnt:
                r = attempt(gsply.sogread, arg)
            try:
                need(r is None or all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(plain_of(r).arrays(), want.arrays())), "badread:sogread",
                     lambda: f"sogread returned a scene with other values although {n} cannot be read from byte {i} on ({cnt.refused} reads failed)")
            except Exception as e:  # noqa: BLE001
                ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), c)
                return
            ctx.saw(c)
    shutil.rmtree(d, ignore_errors=True)


def files(tier):
    th = tier == "thorough"
    for k in KS:
        for n in (0, 1, 2, 3):
            yield {"kind": "u", "k": k, "n": n}
        for n in (0, 1, 3, 257, 300) + ((512, 600) if th else ()):
            yield {"kind": "c", "k": k, "n": n}
        if th:
            yield {"kind": "u", "k": k, "n": 40}
        for kind in "uc":
            yield {"kind": kind, "k": k, "n": 2, "h": "comments"}
        for kind, n in (("u", 4001), ("u", 20011), ("u", 45_000 if k == 15 else 190_003), ("c", 10007), ("c", 70_001)) + ((("c", 300_007), ("u", 70_001)) if th else ()):
            if k in (0, 15) or n == 10007 or th:
                yield {"kind": kind, "k": k, "n": n}
        if k in (0, 15):
            for h in ("long", "edge"):
                for kind in "uc":
                    yield {"kind": kind, "k": k, "n": 2, "h": h}
                    yield {"kind": kind, "k": k, "n": 0, "h": h}


# --- counts ---------------------------------------------------------------------------------------

CN = (0, 1, 2, 3, 255, 256, 257, 512, 513, 1000)
BADN = ("-1", "-257", "x", "", "1.0", "1e2", "0x2", "+3", "1_0", "3 3", "nan", "2147483648", "4294967295", "4294967296", "4294967299", "1152921504606846976",
        "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "1" + "0" * 40, "\u0663", "3.")


def header(c, v, s, m):
    ls = ["ply", "format binary_little_endian 1.0"]
    if c is not None:
        ls += [f"element chunk {c}"] + ["property float " + x for x in refs.CH]
    ls += [f"element vertex {v}"] + ["property uint " + x for x in refs.VX]
    if m:
        ls += [f"element sh {s}"] + [f"property uchar f_rest_{i}" for i in range(m)]
    return ("\n".join(ls + ["end_header"]) + "\n").encode()


def data(c, v, s, m):
    n = max(v, s)
    ch, ve, sh = packed(max(n, 1), m // 3)
    ch = np.resize(ch, (c, 18)) if c else ch[:0]
    return ch.astype("<f4").tobytes() + ve[:v].astype("<u4").tobytes() + (sh[:s].tobytes() if m else b"")


def readers_on(ctx, b, ok, what, check=None):
    import gsply
    p = ctx.path("n.compressed.ply")
    with open(p, "wb") as h:
        h.write(b)
    for nm, (fn, kinds) in ply_readers().items():
        if "c" not in kinds and ok:
            continue
        fn2, arg = (gsply.decompress_from_bytes, b) if nm == "bytes" else (fn, p)
        if not ok:
            must_reject(ctx, nm, fn2, arg, what)
        else:
            ctx.evaluations += 1
            r = attempt(fn2, arg)
            need(r is not None, f"rejected:{nm}:counts", f"{nm} rejected consistent counts {what[1]}")
            need(len(r) == check, f"counts:{nm}:len", f"{len(r)} of {check}")
        ctx.saw(nm, what)


def counts(ctx, u):
    c, v, s, m = u["c"], u["v"], u["s"], u["m"]
    ok = c == (v + 255) // 256 and (not m or s == v)
    h = header(c, v, s, m)
    d = data(c, v, s, m)
    if ok and v > 300:
        return      # valid and decoded elsewhere
    readers_on(ctx, h + d, ok, ("counts", f"chunk {c} vertex {v} sh {s} ({m} coefficients), all claimed data present"), v)
    if d:
        readers_on(ctx, h + d[:-1], False, ("counts-short", f"chunk {c} vertex {v} sh {s}, one byte missing"))
    real = data(1, 3, 3, m)
    if len(real) < len(d) or not ok:
        readers_on(ctx, h + real, False, ("counts-short", f"chunk {c} vertex {v} sh {s} over the data of 3 Gaussians"))


def badcount(ctx, u):
    """One count replaced by a malformed or huge one, everywhere else valid."""
    import gsply
    bad, where, k = BADN[u["i"]], u["where"], u["k"]
    if u["kind"] == "u":
        p = realistic(3, k)
        b = refs.std_bytes(p).replace(b"element vertex 3", b"element vertex " + bad.encode("utf8"))
    else:
        e = {"chunk": b"element chunk 1", "vertex": b"element vertex 3", "sh": b"element sh 3"}[where]
        b0 = refs.packed_bytes(*packed(3, k))
        need(e in b0, "harness", "count not found")
        b = b0.replace(e, f"element {where} {bad}".encode("utf8"))
    f = ctx.path("b.compressed.ply")
    g = ctx.path("b.ply")
    for x in (f, g):
        with open(x, "wb") as h:
            h.write(b)
    what = ("malformed-count", f"element {where} {bad!r}")
    for nm, (fn, _) in ply_readers().items():
        if nm == "bytes":
            must_reject(ctx, nm, gsply.decompress_from_bytes, b, what)
        else:
            must_reject(ctx, nm, fn, f, what)
            if nm == "GSTensor.load":
                must_reject(ctx, nm, fn, g, what)
        ctx.saw(nm, u)
    gsply.detect_format(g)


# --- SOG ---------------------------------------------------------------------------------------------

def sog_ok(ctx, arg, n, what):
    import gsply
    r = attempt(gsply.sogread, arg)
    need(r is not None and len(r) == n, f"control:sog:{what}", lambda: f"a valid SOG scene was rejected or has the wrong length ({r})")


def sog_archive(ctx, u):
    import gsply
    s = sog.simple(u["ver"], u["n"], u["deg"], u["pal"])
    b = sog.zipped(s.files(), u["z"])
    p = ctx.path("a.sog")
    with open(p, "wb") as h:
        h.write(b)
    sog_ok(ctx, p, u["n"], "file")
    sog_ok(ctx, b, u["n"], "bytes")
    for i in ([u["cut"]] if "cut" in u else range(len(b) - 1, -1, -1)):
        c = {**u, "cut": i}
        ctx.beat(c)
        os.truncate(p, i)
        try:
            must_reject(ctx, "sogread", gsply.sogread, p, ("sog-archive", f"the first {i} of {len(b)} bytes of a SOG archive"))
            must_reject(ctx, "sogread(bytes)", gsply.sogread, b[:i], ("sog-archive", f"the first {i} of {len(b)} bytes of a SOG archive"))
        except Exception as e:  # noqa: BLE001
            ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), c)
            return
        ctx.saw(c)
    os.unlink(p)


def sog_member(ctx, u):
    """One member cut at every byte (and missing), in folder, archive and bytes form."""
    import gsply
    s = sog.simple(u["ver"], u["n"], u["deg"], u["pal"])
    fs = s.files()
    d = ctx.path("sogdir")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for n, x in fs.items():
        with open(os.path.join(d, n), "wb") as h:
            h.write(x)
    sog_ok(ctx, d, u["n"], "folder")
    sog_ok(ctx, sog.zipped(fs), u["n"], "bytes")
    p = ctx.path("m.sog")
    for name in ([u["name"]] if "name" in u else list(fs)):
        full = fs[name]
        mp = os.path.join(d, name)
        for i in ([u["cut"]] if "cut" in u else list(range(len(full) - 1, -1, -1)) + [None]):
            c = {**u, "name": name, "cut": i}
            ctx.beat(c)
            part = dict(fs)
            if i is None:
                part.pop(name)
                os.unlink(mp)
            else:
                part[name] = full[:i]
                with open(mp, "wb") as h:
                    h.write(full[:i])
            z = sog.zipped(part)
            what = ("sog-member", f"{name} {'missing' if i is None else f'cut to {i} of {len(full)} bytes'}")
            try:
                must_reject(ctx, "sogread(folder)", gsply.sogread, d, what)
                must_reject(ctx, "sogread(bytes)", gsply.sogread, z, what)
                if i is None or i % 7 == 0 or i > len(full) - 4:
                    with open(p, "wb") as h:
                        h.write(z)
                    must_reject(ctx, "sogread(file)", gsply.sogread, p, what)
            except Exception as e:  # noqa: BLE001
                ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), c)
                return
            ctx.saw(c)
        with open(mp, "wb") as h:
            h.write(full)
    shutil.rmtree(d, ignore_errors=True)


def sog_cases(tier):
    th = tier == "thorough"
    for ver in (2, 3):
        for deg in (0, 1, 2, 3):
            for n in (1, 5) if not th else (0, 1, 5, 17):
                for z in (False, True):
                    if not th and (n == 5) == z:
                        continue
                    yield "sog_archive", {"ver": ver, "deg": deg, "n": n, "pal": 64 if not th else 128, "z": z}
            yield "sog_member", {"ver": ver, "deg": deg, "n": 5, "pal": 64}
            yield "badread_sog", {"ver": ver, "deg": deg, "n": 5, "pal": 64, "z": deg % 2 == 0}
            if th:
                yield "sog_member", {"ver": ver, "deg": deg, "n": 33, "pal": 100}


# --- no file at all -----------------------------------------------------------------------------------

def absent(ctx, u):
    import gsply
    d = ctx.path("dir")
    os.makedirs(d, exist_ok=True)
    e = ctx.path("empty.ply")
    open(e, "wb").close()
    for nm, (fn, _) in ply_readers().items():
        for what, arg in (("missing", ctx.path("nope.ply")), ("directory", d), ("empty", e), ("missing-compressed", ctx.path("nope.compressed.ply"))):
            if nm == "bytes":
                fn, arg = gsply.decompress_from_bytes, b""
            must_reject(ctx, nm, fn, arg, (what, what))
    for arg in (d, e, ctx.path("nope.sog"), b""):
        must_reject(ctx, "sogread", gsply.sogread, arg, ("missing", str(arg)))
    for arg in (ctx.path("nope.ply"), d, e):
        r = gsply.detect_format(arg)
        need(r == (False, None), "detect:absent", f"{r}")
    ctx.saw("absent")


FN = {"prefix": prefix, "badread": badread, "badread_sog": badread_sog, "counts": counts, "badcount": badcount, "sog_archive": sog_archive, "sog_member": sog_member, "absent": absent}


def cases(tier):
    for f in files(tier):
        yield "prefix", f
        yield "badread", f
    for m in (0, 9, 24, 45):
        for c, v in itertools.product(CN[:4] + (4,), CN):
            for s in CN if m else (0,):
                if m in (24, 45) and s not in (v, 0, 3, 257):
                    continue
                yield "counts", {"c": c, "v": v, "s": s, "m": m}
    for i in range(len(BADN)):
        for k in (0, 15):
            yield "badcount", {"kind": "u", "where": "vertex", "k": k, "i": i}
            for w in ("chunk", "vertex", "sh"):
                if k or w != "sh":
                    yield "badcount", {"kind": "c", "where": w, "k": k, "i": i}
    yield "absent", {}
    yield from sog_cases(tier)


def units(tier, seed):
    u = []
    small = 0
    for i, (w, c) in enumerate(cases(tier)):
        if w in ("prefix", "sog_archive", "sog_member", "badread", "badread_sog"):
            u.append({"i": [i], "big": c.get("n", 0) + 100 * (c.get("h") in ("long", "edge"))})
        else:
            small += 1
    u += [{"mod": [m, 12], "big": 50} for m in range(12)]
    return sorted(u, key=lambda x: -x["big"])


def run_unit(ctx, u):
    for i, (w, c) in enumerate(cases(ctx.tier)):
        if ("i" in u and i in u["i"]) or ("mod" in u and w in ("counts", "badcount", "absent") and i % u["mod"][1] == u["mod"][0]):
            c = {**c, "w": w}
            ctx.case(c, FN[w], ctx, c)
            ctx.sample(c)


def warm(ctx, w):
    import gsply
    if w == "sog":
        for v in (2, 3):
            for deg in (0, 1):
                sog_ok(ctx, sog.zipped(sog.simple(v, 5, deg).files()), 5, "warm")
    else:
        for k in KS:
            for f in ({"kind": "c", "k": k, "n": 3}, {"kind": "c", "k": k, "n": 300}):
                b = blob(f)
                p = ctx.path("w.compressed.ply")
                with open(p, "wb") as h:
                    h.write(b)
                if w == "c":
                    gsply.plyread(p)
                    gsply.decompress_from_bytes(b)
                else:
                    gsply.GSTensor.from_compressed(p, device="cpu")
                    gsply.plyread_gpu(p, device="cpu")
    ctx.evaluations, ctx.violations = 0, []


def replay(ctx, c):
    ctx.case(c, FN[c["w"]], ctx, c)
