"""C15: SOG archives decode to the values the format defines (hand-assembled archives against an independent float64 decoder)."""
import copy
import itertools
import os
import shutil
from pathlib import Path

import numpy as np

from gsmc import sog
from gsmc.core import need
from gsmc.sog import COEFFS

LEVEL = "exploration"
RULE = ("Hand-assembled archives of both metadata versions read through sogread and compared with an independent float64 decoder: every code of every 8-bit channel (each channel a different "
        "permutation of 0..255), every 16-bit position code of every axis under each bounds pair, every quaternion tag 0..255 and every component code beside a grid of the others, every "
        "palette label under boundary palette sizes, every texture geometry that holds n codes, every version x degree x container form (bytes, .sog file, folder; member order, compression, "
        "names, extra members also of the same names in folders or in another case, 3-channel textures), which must agree bit for bit. Then every archive from one well-formed one by a single removal (member, metadata field, list element), size "
        "or count change, and truncation, which must be rejected. Distinct states are hashed by archive content.")
BOUND = {
    "quick": "sizes 0..6 and every 4th to 40, 63..66, 255..257, 4096, 65536; degrees 0..3; 10 bounds pairs; quaternion component grid 9x9; palettes 1..65536 (8 sizes)",
    "thorough": "sizes 0..300; 34 bounds pairs; all 65536 pairs of two quaternion components beside 9 of the third; 40 palette sizes; removals x all versions x degrees x containers",
}
ASSUMPTIONS = ["WebP encoding and decoding by imagecodecs is lossless", "bounds span at most +-40 in log space (positions stay finite in float32)"]
WARM = [2, 3]
EPS = 2.0 ** -23


def form(ctx, files, how):
    """Read one archive through the given container form."""
    import gsply
    d = ctx.path("sog")
    if how.startswith("bytes"):
        names = list(files)
        order = {"bytes": names, "bytes-rev": names[::-1], "bytes-rot": names[2:] + names[:2], "bytes-deflate": names}[how]
        return gsply.sogread(sog.zipped(files, deflate=how == "bytes-deflate", order=order))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if how.startswith("folder"):
        r = os.path.join(d, "scene.sog" if how == "folder.sog" else "scene")
        for n, b in files.items():
            f = os.path.join(r, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as h:
                h.write(b)
        return gsply.sogread(Path(r) if how == "folder-path" else r)
    f = os.path.join(d, {"file": "a.sog", "file-upper": "a.SOG", "file-path": "b c.v1.sog", "file-deflate": "x.sog"}[how])
    with open(f, "wb") as h:
        h.write(sog.zipped(files, deflate=how == "file-deflate"))
    return gsply.sogread(Path(f) if how == "file-path" else f)


FORMS = ("bytes", "bytes-rev", "bytes-rot", "bytes-deflate", "file", "file-upper", "file-path", "file-deflate", "folder", "folder-path")


def bits(g):
    s = g.shN
    n = len(g)
    s = np.zeros((n, 0, 3), np.float32) if s is None else np.asarray(s)
    return [(x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes()) for x in (g.means, g.scales, g.quats, g.opacities, g.sh0, s)] + [
        None if g.masks is None else np.asarray(g.masks).tobytes(), sorted(g.format_state.items())]


def compare(g, ref, degree, what):
    n = len(ref["means"])
    need(len(g) == n, f"count:{what}", f"{len(g)} Gaussians instead of {n}")
    k = COEFFS[degree]
    need(g.get_sh_degree() == degree, f"degree:{what}", f"{g.get_sh_degree()} instead of {degree}")
    got = {a: getattr(g, a) for a in ("means", "scales", "quats", "opacities", "sh0", "shN")}
    if got["shN"] is None:
        need(k == 0, f"shN:{what}", "higher-order coefficients are missing")
        got["shN"] = np.zeros((n, 0, 3), np.float32)
    for a in got:
        r = ref[a]
        x = np.asarray(got[a])
        need(x.dtype == np.float32, f"dtype:{what}:{a}", str(x.dtype))
        need(x.shape == r.shape, f"shape:{what}:{a}", f"{x.shape} instead of {r.shape}")
        if a == "means":
            span = np.abs(ref["logmeans"]) + ref["mag"]
            tol = EPS * (4 + 6 * span) * np.exp(np.abs(ref["logmeans"]))
        elif a == "opacities":
            tol = EPS * (8 + 4 * np.abs(r)) + ref.get("optol", 0)
        elif a == "quats":
            # the largest component is the square root of a difference from one
            tol = np.full(r.shape, 8 * EPS)
            i = np.arange(n)
            root = ref["root"]
            tol[i, root] = np.where(r[i, root] > 0, 8 * EPS + 6 * EPS / np.maximum(r[i, root], 1e-4), 3e-3)
        else:
            tol = 4 * EPS * (np.abs(r) + ref["mags"].get(a, 0))
        bad = ~(np.abs(x.astype(np.float64) - r) <= tol)
        if bad.any():
            j = np.argwhere(bad)[0]
            need(False, f"value:{what}:{a}", f"{a}{list(map(int, j))} is {x[tuple(j)]!r}, the format defines {r[tuple(j)]!r} ({int(bad.sum())} values differ)")
    m = g.masks
    need(m is None or np.asarray(m).all(), f"masks:{what}", "Gaussians are masked out")
    st = {str(v) for v in g.format_state.values()} if not isinstance(g.format_state, str) else g.format_state
    need(g.is_scales_ply and g.is_opacities_ply and g.is_sh0_sh, f"labels:{what}", f"labelled {st}")


def reference(s):
    """Decoded values plus what rounding depends on."""
    r = sog.decode(s)
    m = s.meta
    lim = lambda k: float(np.max(np.abs([m[k]["mins"], m[k]["maxs"]])))
    r["mag"] = lim("means")
    v3 = "count" not in m
    r["mags"] = {}
    if v3:
        r["mags"] = {"scales": lim("scales"), "sh0": lim("sh0")}
        r["optol"] = 4 * EPS * lim("sh0")
        if "shN" in m:
            r["mags"]["shN"] = max(abs(m["shN"]["mins"]), abs(m["shN"]["maxs"]))
    n = len(r["means"])
    if not v3 and n:
        # logit of a code close to 0 or 1: the clamp and 1-e are evaluated in single or double precision
        a = np.clip(s.tex["sh0"].reshape(-1, 4)[:n, 3] / 255.0, 1e-6, 1 - 1e-6)
        r["optol"] = EPS / np.minimum(a, 1 - a)
    tag = s.tex["quats"].reshape(-1, 4)[:n, 3].astype(int)
    r["root"] = np.where(tag >= 252, tag - 252, 3)
    return r


def both(ctx, s, degree, what, forms=("bytes", "folder")):
    files = s.files()
    ctx.saw(*files.values())
    ref = reference(s)
    g = form(ctx, files, forms[0])
    ctx.traces += 1
    compare(g, ref, degree, what)
    for h in forms[1:]:
        ctx.traces += 1
        need(bits(form(ctx, files, h)) == bits(g), f"containers:{what}", f"{h} and {forms[0]} decode differently")
    return g


def perm(n, mul, off, mod=256):
    return ((np.arange(n) * mul + off + np.arange(n) // mod) % mod).astype(np.uint32)


MULS = (1, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71)


def channel_codes(n, degree, shift, palette=64):
    c = {}
    i = 0
    for t in ("means_l", "means_u", "quats", "scales", "sh0"):
        a = np.zeros((n, 4), np.uint8)
        for j in range(4):
            a[:, j] = perm(n, MULS[(i + shift) % len(MULS)], 31 * i + 7 * shift)
            i += 1
        c[t] = a
    c["quats"][:, 3] = 252 + np.arange(n) % 4
    k = COEFFS[degree]
    if k:
        lab = perm(n, 5, shift, palette)
        c["labels"] = np.stack([lab & 255, lab >> 8, perm(n, 3, 1), perm(n, 7, 2)], 1).astype(np.uint8)
        c["centroids"] = ((np.arange(palette * k * 3) * 37 + shift) % 256).astype(np.uint8).reshape(palette, k, 3)
    return c


def one_channels(ctx, version, degree, shift):
    """All 256 codes of every 8-bit channel at once."""
    s = sog.make(version, 256, degree, channel_codes(256, degree, shift))
    both(ctx, s, degree, "channels")
    both(ctx, sog.make(version, 256, degree, channel_codes(256, degree, shift), bounds=odd_bounds(shift), codebooks=odd_books(shift)), degree, "channels")


def odd_bounds(i):
    """Bounds: inverted, equal (codes then matter only through the maximum), far from zero, tiny."""
    t = [([-1.0, 0.0, 3.0], [1.0, 1e-3, 3.5]), ([2.0, -2.0, 0.5], [-2.0, 2.0, 0.25]), ([-12.0, -11.5, 10.0], [-11.0, 12.0, 10.5]), ([0.0, -0.0, 1e-6], [1e-5, 5.0, 2e-6])][i % 4]
    q = [(-0.5, 0.5), (1.0, -1.0), (0.0, 4.0), (-7.0, -6.5)][i % 4]
    return {"means": t, "scales": ([x - 3 for x in t[0]], [x + 1 for x in t[1]]), "sh0": (t[0] + [-9.0 + i % 3], t[1] + [9.5]), "shN": q}


def odd_books(i):
    k = np.arange(256)
    t = [k[::-1] * 0.03 - 4, np.where(k % 2, 1.0, -1.0) * k * 0.01, (k * 77 % 256) / 255.0 * 12 - 9, np.exp2(-(k * 0.5)) * (1 - 2 * (k % 3 == 0))][i % 4]
    return {"scales": t - 2, "sh0": t * 0.5, "shN": t * 0.25 + 0.01}


MB = [(0, 1), (-1, 1), (-10, 10), (3, 3.001), (-3.001, -3), (0, 1e-6), (5, -5), (-0.0, 12), (-40, 40), (1e-4, 7.7)]
MB_TH = MB + [(a * s, a * s + w) for s in (1, -1) for a in (0.25, 3.3, 11.0) for w in (1e-4, 0.5, 3, 9)]


def one_means(ctx, version, bi):
    """Every 16-bit code of every axis."""
    n = 65536
    lo, hi = MB_TH[bi]
    c = channel_codes(n, 0, bi)
    x = np.arange(n, dtype=np.uint32)
    for j, v in enumerate((x, (x * 40503 + 7) % n, n - 1 - x)):
        c["means_l"][:, j], c["means_u"][:, j] = v & 255, v >> 8
    both(ctx, sog.make(version, n, 0, c, bounds={"means": ([lo, lo - 0.5, lo * 0.5], [hi, hi + 0.25, hi * 0.5])}), 0, "means", forms=("bytes",))


def one_flat(ctx, version, v):
    """Equal minimum and maximum on some axes (the published range rule), code zero there."""
    n = 40
    for axes in itertools.product((0, 1), repeat=3):
        c = channel_codes(n, 0, 1)
        lo, hi = np.array([-2.0, v, 0.75]), np.array([1.5, v + 1, 4.0])
        for j, f in enumerate(axes):
            if f:
                hi[j] = lo[j]
                c["means_l"][:, j] = c["means_u"][:, j] = 0
        both(ctx, sog.make(version, n, 0, c, bounds={"means": (lo, hi)}), 0, "flat", forms=("bytes",))


def one_quats(ctx, version, comp, grid):
    """Component `comp` takes all 256 codes beside a grid of the other two, under every valid tag."""
    o = np.unique(np.linspace(0, 255, grid).round().astype(int))
    o = np.unique(np.concatenate([o, [127, 128]]))
    A, B, S, T = (x.ravel() for x in np.meshgrid(o, o, np.arange(256), np.arange(4)))
    n = len(A)
    c = channel_codes(n, 0, 0)
    q = c["quats"]
    q[:, comp], q[:, (comp + 1) % 3], q[:, (comp + 2) % 3], q[:, 3] = S, A, B, 252 + T
    both(ctx, sog.make(version, n, 0, c), 0, "quats", forms=("bytes",))


def one_pairs(ctx, version, comp, third):
    """All pairs of two component codes (thorough)."""
    A, B, T = (x.ravel() for x in np.meshgrid(np.arange(256), np.arange(256), np.arange(4)))
    n = len(A)
    c = channel_codes(n, 0, 0)
    q = c["quats"]
    q[:, comp], q[:, (comp + 1) % 3], q[:, (comp + 2) % 3], q[:, 3] = third, A, B, 252 + T
    both(ctx, sog.make(version, n, 0, c), 0, "quats", forms=("bytes",))


def one_tags(ctx, version, salt):
    """Every tag value with several component codes."""
    n = 256 * 6
    c = channel_codes(n, 0, salt)
    c["quats"][:, 3] = np.arange(n) % 256
    both(ctx, sog.make(version, n, 0, c), 0, "tags")


def one_palette(ctx, version, degree, palette):
    """Every label around row and palette boundaries (all labels for small palettes), including labels outside the palette."""
    rows = -(-palette // 64)
    edge = [0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, palette - 2, palette - 1, palette, palette + 1, rows * 64 - 1, rows * 64, rows * 64 + 1]
    lab = np.array(sorted({e for e in edge if 0 <= e < 65536} | set(range(0, min(palette + 70, 65536), max(1, palette // 2048)))))
    if palette >= 65536 and degree == 1:
        lab = np.arange(65536)
    n = len(lab)
    c = channel_codes(n, degree, palette % 7, palette)
    c["labels"][:, 0], c["labels"][:, 1] = lab & 255, lab >> 8
    k = COEFFS[degree]
    c["centroids"] = ((np.arange(palette * k * 3, dtype=np.uint64) * 2654435761 >> 7) % 256).astype(np.uint8).reshape(palette, k, 3)
    both(ctx, sog.make(version, n, degree, c, palette=palette), degree, "palette", forms=("bytes",))


def one_size(ctx, version, degree, n):
    """Every texture geometry that holds n codes, for each attribute; the surplus must be ignored."""
    keys = ["means_l", "means_u", "quats", "scales", "sh0"] + (["labels"] if degree else [])
    base = sog.simple(version, n, degree, salt=n)
    g = both(ctx, base, degree, "size")
    want = bits(g)
    ws = sorted({1, 2, 3, max(n - 1, 1), max(n, 1), n + 1, n + 7} if n <= 40 else {1, 7, n, n + 1})
    for key, w, fill in itertools.product(keys, ws, (0, 255)):
        s = sog.simple(version, n, degree, salt=n, widths={key: w}, fill=fill)
        ctx.evaluations += 1
        ctx.traces += 1
        need(bits(form(ctx, s.files(), "bytes")) == want, f"geometry:{key}", f"{n} codes in a texture {w} wide decode differently")
    # prefix: the stated number of Gaussians, in order
    for m in {0, 1, n // 2, n - 1} - {n} if n else ():
        if m < 0:
            continue
        s = copy.deepcopy(base)
        setcount(s.meta, m)
        g2 = form(ctx, s.files(), "bytes")
        ctx.evaluations += 1
        compare(g2, reference(s), degree, "prefix")
        for a in ("means", "scales", "quats", "opacities", "sh0"):
            need(np.asarray(getattr(g2, a)).tobytes() == np.ascontiguousarray(np.asarray(getattr(g, a))[:m]).tobytes(), f"prefix:{a}", f"count {m} of {n}")


def setcount(m, n):
    if "count" in m:
        m["count"] = n
    else:
        for a in ("means", "quats", "scales", "sh0", "shN"):
            if a in m:
                m[a]["shape"][0] = n


def one_forms(ctx, version, degree, n):
    """Every container form, naming and texture channel count, compared bit for bit."""
    s = sog.simple(version, n, degree, salt=3)
    files = s.files()
    g = form(ctx, files, "bytes")
    compare(g, reference(s), degree, "forms")
    want = bits(g)

    def same(what, fs, how):
        ctx.evaluations += 1
        ctx.traces += 1
        need(bits(form(ctx, fs, how)) == want, f"containers:{what}", f"{how} decodes differently")
    for h in FORMS:
        same(h, files, h)
    for h in ("bytes", "file", "folder"):
        same("extra", {"readme.txt": b"x", **files, "zz.webp": b"broken"}, h)
        # members of the same names, or of names in another case, elsewhere in the archive
        other = sog.simple(version, n, degree, salt=5).files()
        nested = {f"{d}/{k}": v for d in ("a", "z/meta.json") for k, v in other.items()}
        same("nested", {**nested, **files}, h)
        same("nested", {**files, **nested}, h)
        same("case", {**files, **{k.upper(): v for k, v in other.items()}}, h)
        names = {k: f"tex/{v}" for k, v in sog.NAMES.items()}
        s2 = copy.deepcopy(s)
        for a in s2.meta.values():
            if isinstance(a, dict) and "files" in a:
                a["files"] = [f"tex/{x}" for x in a["files"]]
        same("names", s2.files(names), h)
        s3 = copy.deepcopy(s)
        s3.meta = {**{k: s3.meta[k] for k in reversed(s3.meta)}, "generator": {"count": 99, "shape": [1]}, "bundled": True}
        same("metadata order", s3.files(), h)
        s4 = copy.deepcopy(s)
        for k in ("means_l", "means_u", "scales", "centroids", "labels"):
            if k in s4.tex:
                s4.tex[k] = s4.tex[k][..., :3]
        same("rgb", s4.files(), h)
    # swapped member contents must show (names, not positions, identify members)
    s5 = copy.deepcopy(s)
    s5.meta["means"]["files"] = s5.meta["means"]["files"][::-1]
    s5r = copy.deepcopy(s5)
    s5r.tex["means_l"], s5r.tex["means_u"] = s.tex["means_u"], s.tex["means_l"]
    for h in ("bytes", "folder"):
        compare(form(ctx, s5.files(), h), reference(s5r), degree, "swapped")


def one_books(ctx, length):
    """Codebooks of any length that covers the codes, and one entry too short."""
    n = 64
    for att in ("scales", "sh0", "shN"):
        degree = 1
        c = channel_codes(n, degree, 2)
        key = {"scales": "scales", "sh0": "sh0", "shN": "centroids"}[att]
        a = c[key] if key == "centroids" else c[key][:, :3]
        if length < 256:
            a %= length
        a[1, 0 if key == "centroids" else 2] = length - 1
        for cut in (0, 1):
            bk = odd_books(length)
            bk[att] = bk[att][: length - cut]
            s = sog.make(2, n, degree, c, codebooks=bk)
            if cut == 0:
                both(ctx, s, degree, "codebook", forms=("bytes",))
            else:
                reject(ctx, s.files(), f"codebook:{att}", f"codebook of {length - 1} entries for codes up to {length - 1}")


def reject(ctx, files, key, msg, hows=("bytes",)):
    for h in hows:
        ctx.evaluations += 1
        ctx.traces += 1
        try:
            g = form(ctx, files, h)
        except Exception:  # noqa: BLE001, S112
            continue
        need(False, f"accepted:{key}", f"{h}: accepted with {len(g)} Gaussians: {msg}")


def required(meta):
    """Paths of all metadata fields the layout needs."""
    v3 = "count" not in meta
    for a, d in meta.items():
        if a in ("version",):
            continue
        if not isinstance(d, dict):
            yield (a,)
            continue
        if a != "shN":
            yield (a,)
        for f in d:
            if f == "quantization" or (v3 and f == "shape" and a not in ("means", "shN")):
                continue
            yield (a, f)
            if f in ("files", "mins", "maxs") and isinstance(d[f], list):
                for i in range(len(d[f])):
                    yield (a, f, i)


def faults(s):
    """(name, archive) for every single removal, size and count fault."""
    m = s.meta
    v3 = "count" not in m
    for p in required(m):
        t = copy.deepcopy(s)
        x = t.meta
        for q in p[:-1]:
            x = x[q]
        del x[p[-1]]
        if p == ("means", "shape"):
            pass
        yield "field:" + ".".join(map(str, p)), t
    for a in ("means", "scales", "sh0"):
        for f in ("mins", "maxs"):
            if f in m[a]:
                t = copy.deepcopy(s)
                t.meta[a][f].append(1.0)
                yield f"longer:{a}.{f}", t
                for bad in (None, "x", 1.5, [1.0], [[1.0, 2.0, 3.0]]):
                    t = copy.deepcopy(s)
                    t.meta[a][f] = bad
                    yield f"type:{a}.{f}", t
    n = m["means"]["shape"][0] if v3 else m["count"]
    for bad in (n + 1, n + 1000, -1, -n, None, "4", 2.5, [n]):
        t = copy.deepcopy(s)
        setcount(t.meta, bad)
        yield f"count:{bad}", t
    for k in s.tex:
        if k == "centroids":
            continue
        for cut in {1, n}:
            t = copy.deepcopy(s)
            flat = t.tex[k].reshape(-1, 4)[: max(n - cut, 1)] if n > 1 else None
            if flat is None or len(flat) >= n:
                continue
            t.tex[k] = flat.reshape(1, -1, 4)
            yield f"texture:{k}", t
    if "shN" in m:
        kk = m["shN"]["shape"][1] if v3 else None
        for bad in ([1, 2, 4, 5, 7, 9, 12, 14, 16, 24, 45, -1, "3", None] if v3 else [-1, 4, 5, 15, "1", None, 1.5]):
            if bad == kk:
                continue
            t = copy.deepcopy(s)
            if v3:
                t.meta["shN"]["shape"][1] = bad
            else:
                t.meta["shN"]["bands"] = bad
            yield f"bands:{bad}", t
        for other in (COEFFS.values() if v3 else COEFFS):
            now = kk if v3 else m["shN"]["bands"]
            if other == now or other == 0:
                continue
            t = copy.deepcopy(s)
            if v3:
                t.meta["shN"]["shape"][1] = other
            else:
                t.meta["shN"]["bands"] = other
            yield f"other degree:{other}", t
        cen = s.tex["centroids"]
        for d in (-64, -1, 1, 64):
            w = cen.shape[1] + d
            if w < 1:
                continue
            t = copy.deepcopy(s)
            t.tex["centroids"] = np.resize(cen, (cen.shape[0], w, 4))
            yield f"centroid width:{d}", t
        if not v3:
            for bad in (cen.shape[0] * 64 + 1, 65536 * 2, None, "64"):
                t = copy.deepcopy(s)
                t.meta["shN"]["count"] = bad
                yield f"palette:{bad}", t


def one_faults(ctx, version, degree, n, hows):
    s = sog.simple(version, n, degree)
    files = s.files()
    form(ctx, files, "bytes")
    for k in files:
        reject(ctx, {a: b for a, b in files.items() if a != k}, f"missing:{k}", f"without {k}", hows)
        reject(ctx, {(a if a != k else "other/" + a): b for a, b in files.items()}, f"missing:{k}", f"{k} elsewhere", hows)
        reject(ctx, {a: (b if a != k else b"") for a, b in files.items()}, f"empty:{k}", f"{k} empty", hows)
    for name, t in faults(s):
        reject(ctx, t.files(), name, name, hows)
    for bad in (b"", b"{", b"[]", b"null", b"\xff\xfe", b"{}", b'{"means": 3}', files["meta.json"][:-1], files["meta.json"][: len(files["meta.json"]) // 2]):
        reject(ctx, {**files, "meta.json": bad}, "metadata", repr(bad[:20]), hows)


def one_cut(ctx, version, degree, lo, hi):
    """Truncated archives and truncated members: never a different scene."""
    import gsply
    s = sog.simple(version, 5, degree, palette=3)
    files = s.files()
    b = sog.zipped(files)
    want = bits(gsply.sogread(b))
    for i in range(lo, len(b), hi):
        ctx.evaluations += 1
        try:
            g = gsply.sogread(b[:i])
        except Exception:  # noqa: BLE001, S112
            continue
        need(False, "truncated:archive", f"accepted after {i} of {len(b)} bytes ({len(g)} Gaussians)")
    for k in files:
        if not k.endswith(".webp"):
            continue
        for i in range(lo, len(files[k]), hi):
            ctx.evaluations += 1
            try:
                g = form(ctx, {**files, k: files[k][:i]}, "bytes")
            except Exception:  # noqa: BLE001, S112
                continue
            need(bits(g) == want, f"truncated:{k}", f"another scene is returned after {i} of {len(files[k])} bytes")


def one_missing_path(ctx):
    import gsply
    d = ctx.path("nothing")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "empty"))
    open(os.path.join(d, "f.sog"), "wb").close()
    with open(os.path.join(d, "f.zip"), "wb") as h:
        h.write(b"PK")
    for p in ("absent.sog", "absent", "empty", "f.sog", "f.zip"):
        for mk in (str, Path):
            ctx.evaluations += 1
            try:
                gsply.sogread(mk(os.path.join(d, p)))
            except Exception:  # noqa: BLE001, S112
                continue
            need(False, "accepted:path", p)


FN = {f.__name__: f for f in (one_channels, one_means, one_flat, one_quats, one_pairs, one_tags, one_palette, one_size, one_forms, one_books, one_faults, one_cut, one_missing_path)}
PAL = (1, 2, 63, 64, 65, 128, 4096, 65536)
PAL_TH = tuple(sorted({*range(1, 20), *PAL, 127, 129, 191, 192, 193, 255, 256, 257, 1000, 1024, 8191, 8192, 8193, 32767, 32768, 32769, 65535}))


def cases(tier):
    th = tier == "thorough"
    for v in (2, 3):
        for b in range(len(MB_TH if th else MB)):
            yield one_means, (v, b)
        for q in range(3):
            yield one_quats, (v, q, 17 if th else 7)
        if th:
            for q, t in itertools.product(range(3), (0, 1, 60, 127, 128, 190, 254, 255, 100)):
                yield one_pairs, (v, q, t)
        for d in (1, 2, 3):
            for p in PAL_TH if th else PAL:
                yield one_palette, (v, d, p)
        for d in range(4):
            for sh in range(20 if th else 8):
                yield one_channels, (v, d, sh)
            for n in list(range(301 if th else 41)) + [63, 64, 65, 66, 255, 256, 257, 4096]:
                if not th and n > 6 and (n + d) % 4 and n < 255:
                    continue
                yield one_size, (v, d, n)
            for n in (1, 5, 64):
                yield one_forms, (v, d, n)
            for n in (1, 2, 6):
                yield one_faults, (v, d, n, ("bytes", "folder", "file") if th or n == 6 else ("bytes",))
            for lo in range(4):
                yield one_cut, (v, d, lo, 4)
        for x in (-3.0, 0.0, 2.5):
            yield one_flat, (v, x)
        for x in range(4):
            yield one_tags, (v, x)
    for ln in range(1, 257):
        yield one_books, (ln,)
    yield one_missing_path, ()


def units(tier, seed):
    n = 96 if tier == "quick" else 240
    return [{"m": i, "n": n} for i in range(n)]


def run_unit(ctx, u):
    for i, (f, a) in enumerate(cases(ctx.tier)):
        if i % u["n"] == u["m"]:
            c = {"f": f.__name__, "a": a}
            ctx.case(c, f, ctx, *a)
            ctx.sample(c)


def warm(ctx, w):
    for d in (0, 2):
        form(ctx, sog.simple(w, 4, d).files(), "bytes")


def replay(ctx, c):
    ctx.case(c, FN[c["f"]], ctx, *c["a"])
