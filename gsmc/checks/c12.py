"""C12: a PLY file is accepted only with exactly the layout it is decoded by."""
import itertools
import os

import numpy as np

from gsmc import refs
from gsmc.codec import agrees, reference
from gsmc.core import need
from gsmc.data import KS, Plain, plain_of

LEVEL = "exploration"
RULE = ("Every single edit of a valid header (type, name, order, deletion, insertion, extra or renamed or reordered elements, encoding, magic, whitespace, line ends, comments at every "
        "position) for every supported layout, every pair of edits for the smallest ones, and every comment length that moves the end of the header across a read-buffer boundary; the data "
        "section is generated from the edited header's own layout with every value distinct. An oracle that reads the file as generic PLY gives the value of every property: a "
        "reader either rejects or returns these. A case is (layout, edits, data form, reader); distinct by that tuple and by the reader's decision.")
BOUND = {
    "quick": "single edits x 4 degrees x 2 formats x 10 readers; all pairs of ~200 edits (degree 0, both formats; reduced type alphabet) x 5 readers; 12 comment contents x all "
             "positions x degrees and pairs; header lengths 8192+-16, 16384+-16; SH column counts 0..48",
    "thorough": "pairs over the full type alphabet and for degree 1; header lengths 8192+-64, 16384+-64; triples of reduced edits on the degree 0 layout",
}
ASSUMPTIONS = ["a header that is not valid PLY in a way that changes no property (extra blanks, unknown keywords, another version number) may be accepted or rejected, but by all entry points "
               "alike and as format detection says", "element counts are covered by C11", "a compressed file whose number of SH columns is a multiple of three but of no degree may be accepted (existing tests write such files)"]
WARM = ["c"]

TY = ("char", "uchar", "short", "ushort", "int", "uint", "float", "double", "int8", "uint8", "int16", "uint32", "float32", "float64", "Float", "floats", "list uchar float", "half")
TYQ = ("uchar", "int", "uint", "float", "double", "list uchar float")


# --- headers as slots -------------------------------------------------------------------------------

def base(kind, k):
    """One slot (list of lines) per line of a valid header."""
    n = 2
    if kind == "u":
        h = refs.std_header(n, k)
    else:
        h = refs.packed_header(n, 1, 3 * k)
    return [[x] for x in h.decode().split("\n")[:-1]]


def elem_of(slots, i):
    for j in range(i, -1, -1):
        if slots[j] and slots[j][0].startswith("element"):
            return slots[j][0].split()[1]
    return None


EXTRA = ("element face 0\nproperty list uchar int vertex_indices", "element extra 1\nproperty float a", "element extra 0\nproperty float a", "element extra 3",
         "element vertex 2", "element chunk 1", "element sh 2\nproperty uchar f_rest_0", "element camera 1\nproperty float x\nproperty float y\nproperty double z")


def edits(kind, k, full=True):
    """Descriptions of single edits: (op, slot, argument)."""
    s = base(kind, k)
    ty = TY if full else TYQ
    last = len(s) - 1
    for i, sl in enumerate(s):
        w = sl[0].split()
        if w[0] == "property":
            for t in ty:
                if t != w[1]:
                    yield "set", i, f"property {t} {w[2]}"
            nxt = s[i + 1][0].split()
            for nm in ("q", w[2].upper(), w[2] + "_", w[2][:-1], nxt[2] if nxt[0] == "property" else "nx", "x", w[2] + " extra", "q " + w[2], "") if full else ("q", w[2] + "_", "q " + w[2]):
                if nm != w[2]:
                    yield "set", i, f"property {w[1]} {nm}".rstrip()
            yield "del", i, None
            yield "dup", i, None
            for t in ("float", "uchar", "uint") if full else ("float",):
                yield "before", i, f"property {t} extra"
            for j in range(i + 1, last):
                if s[j][0].startswith("property") and (full or j == i + 1):
                    yield "swap", i, j
            if full:
                yield "set", i, sl[0] + " "
                yield "set", i, sl[0] + "\r"
                yield "set", i, " " + sl[0]
                yield "set", i, sl[0].replace(" ", "  ")
                yield "set", i, sl[0].replace(" ", "\t")
                yield "set", i, "Property" + sl[0][8:]
                yield "set", i, "\n" + sl[0]
        elif w[0] == "element":
            for nm in ("Vertex", "vertices", "chunk", "vertex", "sh", "face"):
                if nm != w[1]:
                    yield "set", i, f"element {nm} {w[2]}"
            yield "del", i, None
            for x in ("-1", "-" + w[2], "-2", w[2] + ".0", "x", "0x" + w[2], "--" + w[2]):
                yield "set", i, f"element {w[1]} {x}"
            for x in (0, int(w[2]) - 1, int(w[2]) + 1, 255, 256, 257, 513) if full else (int(w[2]) + 1,):
                if x != int(w[2]):
                    yield "set", i, f"element {w[1]} {x}"
            if full:
                for v in (" " + sl[0], sl[0] + " ", sl[0] + "\r", sl[0].replace(" ", "\t"), sl[0] + " 3", f"element {w[1]}", f"element {w[2]}", "Element" + sl[0][7:], "element"):
                    yield "set", i, v
            for x in EXTRA:
                yield "before", i, x
        elif w[0] == "format":
            for v in ("ascii 1.0", "binary_big_endian 1.0", "binary_little_endian 2.0", "binary_little_endian", "Binary_Little_Endian 1.0", "little_endian 1.0", "binary 1.0", ""):
                yield "set", i, ("format " + v).strip()
            yield "del", i, None
            yield "dup", i, None
            yield "before", i, "format ascii 1.0"
            yield "after", i, "format binary_big_endian 1.0"
            if full:
                for v in (" " + sl[0], sl[0] + " ", sl[0] + "\r", sl[0].replace(" ", "\t"), "Format" + sl[0][6:]):
                    yield "set", i, v
                for j in range(2, last):
                    yield "move", i, j
        elif w[0] == "ply":
            for v in ("PLY", "ply ", " ply", "\nply", "plyx", "pl", "\ufeffply", "", "ply\r", "ply ply", "comment\nply", "ply\nply"):
                yield "set", i, v
            yield "del", i, None
        else:
            for v in ("end_header ", " end_header", "end_header\r", "END_HEADER", "end_headers", "end_header x", "end_header\nend_header", "end_header\n", "\tend_header", "end header",
                      "\nend_header", "end_header\x0b", "\x0cend_header", "\x1cend_header"):
                yield "set", i, v
            for x in EXTRA:
                yield "before", i, x
            yield "before", i, "property float extra"
            yield "before", i, "property uchar extra"
            yield "del", i, None
            yield "before", i, "garbage"
    yield "crlf", 0, None
    yield "cr", 0, None
    el = [j for j, x in enumerate(s) if x[0].startswith("element")]
    for a, b in itertools.combinations(range(len(el)), 2):
        yield "swapel", a, b
    for a in range(len(el)):
        yield "delel", a, None
        yield "dupel", a, None


def apply(s, e):
    op, i, a = e
    el = [j for j, x in enumerate(s) if x and x[0].startswith("element")] + [len(s) - 1]
    if op == "set":
        s[i] = [a] + s[i][1:]
    elif op == "del":
        s[i] = s[i][1:]
    elif op == "dup":
        s[i] = s[i] + s[i][:1]
    elif op == "before":
        s[i] = [a] + s[i]
    elif op == "after":
        s[i] = s[i] + [a]
    elif op == "swap":
        s[i], s[a] = s[a], s[i]
    elif op == "move":
        x = s[i]
        s[i] = []
        s[a] = s[a] + x
    elif op in ("swapel", "delel", "dupel"):
        if max(i, a or 0) + 1 >= len(el):
            return s
        seg = [s[el[j]:el[j + 1]] for j in range(len(el) - 1)]
        if op == "swapel":
            seg[i], seg[a] = seg[a], seg[i]
        elif op == "delel":
            seg[i] = [[] for _ in seg[i]]
        else:
            seg[i] = [x + (y if x else []) for x, y in zip(seg[i], [[] for _ in seg[i]])] + [list(x) for x in seg[i]]
        s[el[0]:el[-1]] = [x for g in seg for x in g]
    return s


def render(s, es):
    nl = "\r\n" if any(e[0] == "crlf" for e in es) else "\r" if any(e[0] == "cr" for e in es) else "\n"
    return (nl.join("\n".join(x) for x in s if x) + nl).encode("utf8")


# --- generic reading -----------------------------------------------------------------------------------

class Generic:
    """What a header means as PLY, however it is laid out: ordered elements with typed properties, or .bad"""

    def __init__(self, head):
        self.bad, self.elements = None, []
        try:
            self.scan(head)
        except refs.BadPly as e:
            self.bad = str(e)
        except (ValueError, IndexError) as e:
            self.bad = repr(e)

    def scan(self, head):
        lines = [x.strip().decode("latin1") for x in head.split(b"\n")]
        if not lines or lines[0] != "ply":
            raise refs.BadPly("magic")
        if "end_header" not in lines[:-1]:
            raise refs.BadPly("no end_header")
        stop = lines.index("end_header")
        self.size = len(b"\n".join(head.split(b"\n")[: stop + 1])) + 1
        enc = None
        for ln in lines[1:stop]:
            w = ln.split()
            if not w or w[0] in ("comment", "obj_info"):
                continue
            if w[0] == "format":
                if enc or w[1:2] != ["binary_little_endian"]:
                    raise refs.BadPly("encoding")
                enc = w[1]
            elif w[0] == "element":
                if len(w) != 3 or not w[2].isdigit() or any(e[0] == w[1] for e in self.elements):
                    raise refs.BadPly("element")
                self.elements.append((w[1], int(w[2]), []))
            elif w[0] == "property":
                if w[1] == "list":
                    self.elements[-1][2].append((w[-1], None))
                else:
                    if len(w) != 3:
                        raise refs.BadPly("property")
                    if w[1] not in refs.TYPES:
                        raise refs.BadPly("type")
                    self.elements[-1][2].append((w[2], "<" + refs.TYPES[w[1]]))
        if not enc:
            raise refs.BadPly("no format")

    def dtype(self, props):
        return np.dtype([(f"c{j}", t) for j, (_, t) in enumerate(props)])

    def fill(self):
        """Data for the header's own layout, every value distinct and sane for the names of the supported layouts."""
        out, salt = b"", 0
        for _, cnt, props in self.elements:
            if any(t is None for _, t in props):
                out += b"\x00" * cnt
                continue
            a = np.zeros(cnt, self.dtype(props))
            for j, (nm, t) in enumerate(props):
                i = np.arange(cnt) + salt
                salt += cnt
                if t in ("<f4", "<f8"):
                    a[f"c{j}"] = (i + 1) * 0.125 + (64 if nm.startswith("max_") else 0)
                elif t in ("<u4", "<i4"):
                    a[f"c{j}"] = ((i.astype(np.uint64) + 1) * 2654435761 % (1 << 32)).astype(np.uint32).view(t)
                else:
                    a[f"c{j}"] = ((i + 1) * 37 % 251).astype(np.uint8).astype(t[1:])
            out += a.tobytes()
        return out

    def read(self, data):
        """name -> {property: array}, as far as the data can be laid out (a list property of a non-empty element ends it)."""
        pos, out = 0, {}
        for nm, cnt, props in self.elements:
            if any(t is None for _, t in props):
                if cnt:
                    return out
                out[nm] = (0, {}, [])
                continue
            names = [p for p, _ in props]
            dt = self.dtype(props)
            if dt.itemsize * cnt > len(data) - pos:
                return out
            a = np.frombuffer(data, dt, cnt, pos) if props else np.zeros(cnt)
            out[nm] = (cnt, {} if len(set(names)) < len(names) else {p: a[f"c{j}"] for j, p in enumerate(names)}, names)
            pos += dt.itemsize * cnt
        return out


def rest(v, degrees=True):
    """K if the f_rest_* properties are exactly those of a supported degree (or, if not degrees, of some number of bands)"""
    m = sum(x.startswith("f_rest_") for x in v)
    return m // 3 if (m in (0, 9, 24, 45) or not degrees and m % 3 == 0) and all(f"f_rest_{i}" in v for i in range(m)) else None


def want_u(r):
    """The standard reading of what was parsed, or None when the properties are not there."""
    if "vertex" not in r:
        return None
    n, v, names = r["vertex"]
    k = rest(v)
    if k is None or any(x not in v for x in refs.std_names(0)) or set(names) != set(refs.std_names(k)):
        return None
    g = [np.asarray(v[x]) for x in refs.std_names(k)]
    t = np.stack([x.astype(np.float32) for x in g], 1) if n else np.zeros((0, 14 + 3 * k), np.float32)
    p = Plain(t[:, :3], t[:, 7 + 3 * k:10 + 3 * k], t[:, 10 + 3 * k:14 + 3 * k], t[:, 6 + 3 * k], t[:, 3:6],
              t[:, 6:6 + 3 * k].reshape(n, 3, k).transpose(0, 2, 1))
    return p, k


def want_c(r):
    if "vertex" not in r or "chunk" not in r:
        return None
    n, v, vn = r["vertex"]
    c, h, hn = r["chunk"]
    if set(vn) != set(refs.VX) or set(hn) != set(refs.CH) or not v or not h or c != (n + 255) // 256:
        return None
    k = 0
    if "sh" in r:
        m, s, sn = r["sh"]
        k = rest(s, False)
        if m != n or k is None or set(sn) != {f"f_rest_{i}" for i in range(3 * k)}:
            return None
    chunk = np.stack([h[x].astype(np.float32) for x in refs.CH], 1)
    vert = np.stack([v[x].astype(np.uint32) for x in refs.VX], 1)
    sh = np.stack([s[f"f_rest_{i}"].astype(np.uint8) for i in range(3 * k)], 1) if k else None
    return (chunk, vert, sh), k


# --- readers ------------------------------------------------------------------------------------------------

def readers(full):
    import gsply
    from gsply.reader import read_compressed, read_uncompressed
    from gsply.torch.compression import read_compressed_gpu
    T = gsply.GSTensor
    d = {
        "plyread": (gsply.plyread, "uc"),
        "read_uncompressed": (read_uncompressed, "u"),
        "read_compressed": (read_compressed, "c"),
        "bytes": (None, "c"),
        "read_compressed_gpu": (lambda f: read_compressed_gpu(f, device="cpu"), "c"),
    }
    if full:
        d.update({
            "GSData.load": (gsply.GSData.load, "uc"),
            "GSTensor.load": (lambda f: T.load(f, device="cpu"), "uc"),
            "GSTensor.load(compressed)": (lambda f: T.load(f, device="cpu"), "c"),
            "from_compressed": (lambda f: T.from_compressed(f, device="cpu"), "c"),
            "plyread_gpu": (lambda f: gsply.plyread_gpu(f, device="cpu"), "c"),
        })
    return d


def attempt(fn, arg):
    try:
        return fn(arg)
    except Exception:  # noqa: BLE001
        return None


def judge(ctx, b, hsize, what, full=True, must=None, exact=True):
    """Every reader on file content b; hsize: header size (None: no valid header). must: kind that has to be accepted."""
    import gsply
    g = Generic(b[:hsize] if hsize else b)
    r = g.read(b[g.size:]) if g.bad is None else {}
    wu, wc = want_u(r), want_c(r)
    f, fc = ctx.path("h.ply"), ctx.path("h.compressed.ply")
    for x in (f, fc):
        if os.path.exists(x):
            os.unlink(x)
    with open(f, "wb") as h:
        h.write(b)
    if full:
        os.link(f, fc)
    det = gsply.detect_format(f)
    acc = {}
    for nm, (fn, kinds) in readers(full).items():
        ctx.evaluations += 1
        s = attempt(gsply.decompress_from_bytes, b) if nm == "bytes" else attempt(fn, fc if nm.endswith("(compressed)") else f)
        acc[nm] = s is not None
        if s is None:
            need(must is None or must not in kinds, f"rejected:{nm}:{what[0]}", lambda: f"{nm} rejects a valid file: {what[1]}")
            continue
        kind = kinds if len(kinds) == 1 else "c" if det[0] else "u"
        w = wu if kind == "u" else wc
        need(g.bad is None, f"accepted:{nm}:invalid:{what[0]}", lambda: f"{nm} accepts a file that is no binary PLY ({g.bad}): {what[1]}")
        need(w is not None, f"accepted:{nm}:layout:{what[0]}", lambda: f"{nm} accepts a file whose properties are not those of a scene: {what[1]}")
        got = plain_of(s)
        if kind == "u":
            p = w[0]
            need(got.means.shape == p.means.shape and got.shN.shape == p.shN.shape, f"misread:{nm}:shape:{what[0]}", lambda: f"{nm} returns {got.shN.shape}, the file has {p.shN.shape}: {what[1]}")
            for a, x, y in zip(("means", "scales", "quats", "opacities", "sh0", "shN"), got.arrays(), p.arrays()):
                need(np.ascontiguousarray(x).tobytes() == np.ascontiguousarray(y).tobytes(), f"misread:{nm}:{a}:{what[0]}",
                     lambda: f"{nm} returns {a} {x.ravel()[:4]}, the file has {y.ravel()[:4]}: {what[1]}")
        else:
            agrees(got, reference(*w[0]), f"misread:{nm}:{what[0]}")
    what_ = what[0]
    if exact:
        comp = [nm for nm, (_, kk) in readers(full).items() if kk == "c"]
        on = [nm for nm in comp if acc[nm]]
        need(len(on) in (0, len(comp)), f"disagree:{what_}", lambda: f"accepted by {on} but not by {[x for x in comp if not acc[x]]}: {what[1]}")
        need(det[0] == bool(on), f"detect:compressed:{what_}", lambda: f"detect_format says {det}, the compressed readers {'accept' if on else 'reject'}: {what[1]}")
        need(not (det[0] and det[1] is not None), f"detect:value:{what_}", f"{det}")
        un = acc["read_uncompressed"]
        need((det[1] is not None) == un, f"detect:uncompressed:{what_}", lambda: f"detect_format says {det}, read_uncompressed {'accepts' if un else 'rejects'}: {what[1]}")
        need(acc["plyread"] == (un or bool(on)), f"detect:plyread:{what_}", lambda: f"plyread {'accepts' if acc['plyread'] else 'rejects'}, the format readers do not agree: {what[1]}")
        if un:
            need(det[1] == {0: 0, 3: 1, 8: 2, 15: 3}[wu[1]], f"detect:degree:{what_}", lambda: f"{det} for {wu[1]} bands")
    ctx.saw(what, sorted(acc.items()), det)
    return acc


def content(head, trap=False, kind="u"):
    """(bytes, header size) with data laid out by the header itself; trap puts an end-of-header marker into the data."""
    g = Generic(head)
    if g.bad is not None:
        return head + Generic(render(base(kind, 0), ())).fill(), None
    d = g.fill()
    d = head[g.size:] + d
    if trap:
        m = b"\nend_header\n"
        pos = 0
        for nm, cnt, props in g.elements:
            if nm == "vertex" or any(t is None for _, t in props):
                break
            pos += cnt * g.dtype(props).itemsize
        d = d[:pos] + m + d[pos + 12:] if len(d) >= pos + 12 else d
    return head[:g.size] + d, g.size


def edited(ctx, c):
    es = [tuple(e) for e in c["e"]]
    s = base(c["kind"], c["k"])
    for e in es:
        s = apply(s, e)
    head = render(s, es)
    full = len(es) == 1
    tag = "+".join(e[0] for e in es)
    b, hs = content(head, False, c["kind"])
    judge(ctx, b, hs, (tag, f"{c['kind']}{c['k']} {es}"), full)
    if full:
        b2, hs2 = content(head, True, c["kind"])
        judge(ctx, b2, hs2, (tag + ":trap", f"{c['kind']}{c['k']} {es}, data holding an end_header line"), full)
    if not full and len(b) - len(head) >= len(Generic(render(base(c["kind"], c["k"]), ())).fill()):
        return      # enough data for any reader to get as far as it would
    judge(ctx, b + b"\x11\x22\x33\x3d" * 512, hs, (tag + ":pad", f"{c['kind']}{c['k']} {es}, followed by 2 KB"), full, exact=False)


# --- comments and header length ----------------------------------------------------------------------------------

COM = ("comment", "comment made by a tool", "comment end_header", "comment\tend_header", "comment element vertex 999", "comment property float x", "comment format ascii 1.0",
       "comment ply", "comment  two  blanks ", "comment " + "z" * 300, "comment caf\u00e9 \u4e16", "comment a\nend_header?b\ncomment")
COM = COM[:-1] + ("comment \x01\x7f\x00",)


def commented(ctx, c):
    s = base(c["kind"], c["k"])
    for i, j in c["at"]:
        s[i] = s[i] + [COM[j]]
    head = render(s, ())
    for trap in (False, True):
        b, hs = content(head, trap, c["kind"])
        judge(ctx, b, hs, ("comment", f"{c['kind']}{c['k']} comments {[(i, COM[j][:30]) for i, j in c['at']]}{', data holding an end_header line' if trap else ''}"),
              len(c["at"]) == 1, must=c["kind"])


def latin(ctx, c):
    """A comment of every single byte."""
    s = base(c["kind"], c["k"])
    h = render(s, ())
    for x in range(c["lo"], c["hi"]):
        if x == 10:
            continue
        for pos, t in ((b"element", b"comment " + bytes([x]) + b"\n"), (b"end_header", b"comment a" + bytes([x]) + b"b\n")):
            i = h.index(pos)
            b, hs = content(h[:i] + t + h[i:], False, c["kind"])
            judge(ctx, b, hs, ("comment-byte", f"{c['kind']}{c['k']} a comment with byte {x:#x}"), True, must=c["kind"])


def length(ctx, c):
    """Header of an exact total length."""
    h = render(base(c["kind"], c["k"]), ())
    for total in c["lens"]:
        for where, many in ((b"element", False), (b"end_header", False), (b"end_header", True)):
            need_ = total - len(h)
            if need_ < 9:
                continue
            if many:
                q, r = divmod(need_, 73)
                t = [b"comment " + b"w" * 64 + b"\n"] * q
                if r >= 8:
                    t.append(b"comment" + b"v" * 0 + b" " * (r - 8) + b"\n")
                elif q:
                    t[-1] = b"comment " + b"w" * (64 + r) + b"\n"
                t = b"".join(t)
            else:
                t = b"comment " + b"c" * (need_ - 9) + b"\n"
            i = h.index(where)
            hd = h[:i] + t + h[i:]
            need(len(hd) == total, "harness", f"{len(hd)} {total}")
            b, hs = content(hd, c["trap"], c["kind"])
            judge(ctx, b, hs, ("length", f"{c['kind']}{c['k']} header of {total} bytes, {where!r}, {'many' if many else 'one'} comment(s)"), True, must=c["kind"])


def columns(ctx, c):
    """Every number of SH columns."""
    for m in range(c["lo"], c["hi"]):
        if c["kind"] == "u":
            s = base("u", 0)
            s[8] = s[8] + [f"property float f_rest_{i}" for i in range(m)]
        else:
            s = base("c", 0)
            s[-1] = ["element sh 2"] + [f"property uchar f_rest_{i}" for i in range(m)] + s[-1]
        ok = m in (0, 9, 24, 45)
        b, hs = content(render(s, ()), False, c["kind"])
        judge(ctx, b, hs, ("columns", f"{c['kind']} with {m} f_rest properties"), True, must=c["kind"] if ok and (m or c["kind"] == "u") else None)


FN = {"edited": edited, "commented": commented, "latin": latin, "length": length, "columns": columns}


def cases(tier):
    th = tier == "thorough"
    for kind in "uc":
        for k in KS:
            for e in edits(kind, k):
                yield "edited", {"kind": kind, "k": k, "e": [e]}
            n = len(base(kind, k))
            for i in range(n - 1):
                for j in range(len(COM)):
                    yield "commented", {"kind": kind, "k": k, "at": [(i, j)]}
        n = len(base(kind, 0))
        for a, b in itertools.combinations(range(n - 1), 2):
            for j, l in ((2, 2), (4, 2), (5, 9), (10, 6)):
                yield "commented", {"kind": kind, "k": 0, "at": [(a, j), (b, l)]}
        es = list(edits(kind, 0, False))
        es = [e for e in es if kind == "u" or not (e[0] == "set" and e[2].startswith("property") and e[2].split()[1] not in ("float", "uint", "double"))]
        for a, b in itertools.combinations(es, 2):
            yield "edited", {"kind": kind, "k": 0, "e": [a, b]}
        if th:
            fl = list(edits(kind, 0, True))
            ps = list(itertools.combinations(fl, 2))
            for a, b in ps[:: 3]:
                yield "edited", {"kind": kind, "k": 0, "e": [a, b]}
            for a, b in itertools.combinations(list(edits(kind, 3, False)), 2):
                if (a[1] + b[1]) % 3 == 0:
                    yield "edited", {"kind": kind, "k": 3, "e": [a, b]}
        for k in (0, 15):
            for lo in range(0, 256, 32):
                yield "latin", {"kind": kind, "k": k, "lo": lo, "hi": lo + 32}
            d = 64 if th else 16
            for c0 in (8192, 16384) + ((24576,) if th else ()):
                for trap in (False, True):
                    yield "length", {"kind": kind, "k": k, "lens": list(range(c0 - d, c0 + d + 1)), "trap": trap}
        for lo in range(0, 49, 7):
            yield "columns", {"kind": kind, "lo": lo, "hi": lo + 7}


def units(tier, seed):
    n = 96
    return [{"m": i, "n": n} for i in range(n)]


def run_unit(ctx, u):
    for i, (w, c) in enumerate(cases(ctx.tier)):
        if i % u["n"] == u["m"]:
            c = {**c, "w": w}
            ctx.case(c, FN[w], ctx, c)
            ctx.sample(c)


def warm(ctx, w):
    for kind in "uc":
        for k in KS:
            b, hs = content(render(base(kind, k), ()), False, kind)
            judge(ctx, b, hs, ("warm", "warm"), True, must=kind)
    ctx.evaluations, ctx.violations = 0, []


def replay(ctx, c):
    ctx.case(c, FN[c["w"]], ctx, c)
