"""Independent reference implementations: PLY parser/writer, packed codec, conversions."""
import numpy as np

C0 = 0.28209479177387814
SQ2 = 2.0 ** 0.5
TYPES = {"char": "i1", "int8": "i1", "uchar": "u1", "uint8": "u1", "short": "i2", "int16": "i2", "ushort": "u2",
         "uint16": "u2", "int": "i4", "int32": "i4", "uint": "u4", "uint32": "u4", "float": "f4", "float32": "f4",
         "double": "f8", "float64": "f8"}


class BadPly(Exception):
    pass


def parse_ply(b):
    """Generic PLY parser (binary little endian, scalar properties): [(element, count, names, types, structured)]"""
    if not (b.startswith(b"ply\n") or b.startswith(b"ply\r\n")):
        raise BadPly("magic")
    pos, lines = 0, []
    while True:
        e = b.find(b"\n", pos)
        if e < 0:
            raise BadPly("no end_header")
        ln = b[pos:e].rstrip(b"\r").decode("latin1")
        pos = e + 1
        if ln.strip() == "end_header":
            break
        lines.append(ln)
    elems, fmtline = [], None
    for ln in lines[1:]:
        w = ln.split()
        if not w or w[0] in ("comment", "obj_info"):
            continue
        if w[0] == "format":
            if fmtline or len(w) != 3:
                raise BadPly("format")
            fmtline = w[1:]
        elif w[0] == "element":
            elems.append([w[1], int(w[2]), [], []])
        elif w[0] == "property":
            if w[1] == "list":
                raise BadPly("list property")
            elems[-1][2].append(w[2])
            elems[-1][3].append(TYPES[w[1]])
        else:
            raise BadPly("line " + ln)
    if fmtline != ["binary_little_endian", "1.0"]:
        raise BadPly("format " + str(fmtline))
    out = []
    for name, cnt, names, types in elems:
        dt = np.dtype([(nm, "<" + t) for nm, t in zip(names, types)])
        need = dt.itemsize * cnt
        if len(b) - pos < need:
            raise BadPly("short data")
        out.append((name, cnt, names, types, np.frombuffer(b, dt, cnt, pos)))
        pos += need
    return out, b[pos:]


def std_names(k):
    return (["x", "y", "z", "f_dc_0", "f_dc_1", "f_dc_2"] + [f"f_rest_{i}" for i in range(3 * k)]
            + ["opacity", "scale_0", "scale_1", "scale_2", "rot_0", "rot_1", "rot_2", "rot_3"])


def std_header(n, k, after_magic="", after_format="", after_element="", before_end="", nl="\n", after_props=None):
    ls = ["ply"]
    if after_magic:
        ls += after_magic.split("\n")
    ls += ["format binary_little_endian 1.0"]
    if after_format:
        ls += after_format.split("\n")
    ls += [f"element vertex {n}"]
    if after_element:
        ls += after_element.split("\n")
    for i, nm in enumerate(std_names(k)):
        ls.append("property float " + nm)
        if after_props and i in after_props:
            ls += after_props[i].split("\n")
    if before_end:
        ls += before_end.split("\n")
    ls.append("end_header")
    return (nl.join(ls) + nl).encode("latin1")


def std_bytes(p, **kw):
    return std_header(len(p), p.k, **kw) + np.ascontiguousarray(p.table(), "<f4").tobytes()


def split_uncompressed(b):
    """Independent reading of a standard file: (k, table) or BadPly."""
    els, rest = parse_ply(b)
    if len(els) != 1 or els[0][0] != "vertex":
        raise BadPly("elements")
    _, n, names, types, arr = els[0]
    p = len(names)
    if p < 14 or (p - 14) % 3 or names != std_names((p - 14) // 3) or set(types) != {"f4"}:
        raise BadPly("layout " + str(names))
    if rest:
        raise BadPly("trailing bytes")
    return (p - 14) // 3, np.array(arr.tolist() if False else arr.view("<f4").reshape(n, p), np.float32, copy=True)


# --- packed format -------------------------------------------------------------------------

CH = ["min_x", "min_y", "min_z", "max_x", "max_y", "max_z", "min_scale_x", "min_scale_y", "min_scale_z",
      "max_scale_x", "max_scale_y", "max_scale_z", "min_r", "min_g", "min_b", "max_r", "max_g", "max_b"]
VX = ["packed_position", "packed_rotation", "packed_scale", "packed_color"]


def packed_header(n, c, m, extra=""):
    ls = ["ply", "format binary_little_endian 1.0"] + ([extra] if extra else []) + [f"element chunk {c}"]
    ls += ["property float " + x for x in CH] + [f"element vertex {n}"] + ["property uint " + x for x in VX]
    if m:
        ls += [f"element sh {n}"] + [f"property uchar f_rest_{i}" for i in range(m)]
    return ("\n".join(ls + ["end_header"]) + "\n").encode()


def packed_bytes(chunk, vert, sh=None, extra=""):
    """chunk (C,18) f4, vert (N,4) u4 [position, rotation, scale, color], sh (N,3K) u1"""
    m = 0 if sh is None else sh.shape[1]
    return (packed_header(len(vert), len(chunk), m, extra) + np.ascontiguousarray(chunk, "<f4").tobytes()
            + np.ascontiguousarray(vert, "<u4").tobytes() + (b"" if sh is None else np.ascontiguousarray(sh, "u1").tobytes()))


def split_packed(b):
    """Independent strict reading of a packed file: (chunk (C,18), vert (N,4), sh (N,M) or None)."""
    els, rest = parse_ply(b)
    if rest:
        raise BadPly("trailing bytes")
    nm = [e[0] for e in els]
    if nm not in (["chunk", "vertex"], ["chunk", "vertex", "sh"]):
        raise BadPly("elements " + str(nm))
    if els[0][2] != CH or set(els[0][3]) != {"f4"} or els[1][2] != VX or set(els[1][3]) != {"u4"}:
        raise BadPly("layout")
    c, n = els[0][1], els[1][1]
    if c != (n + 255) // 256:
        raise BadPly("chunk count")
    chunk = els[0][4].view("<f4").reshape(c, 18).copy() if c else np.zeros((0, 18), np.float32)
    vert = els[1][4].view("<u4").reshape(n, 4).copy() if n else np.zeros((0, 4), np.uint32)
    sh = None
    if len(els) == 3:
        m = len(els[2][2])
        if els[2][1] != n or els[2][2] != [f"f_rest_{i}" for i in range(m)] or set(els[2][3]) != {"u1"} or m % 3:
            raise BadPly("sh layout")
        sh = els[2][4].view("u1").reshape(n, m).copy() if n else np.zeros((0, m), np.uint8)
    return chunk, vert, sh


def unpack(chunk, vert, sh):
    """float64 decode of the published format. Returns dict of float64 arrays."""
    n = len(vert)
    ch = chunk.astype(np.float64)[np.arange(n) // 256] if n else np.zeros((0, 18))
    v = vert.astype(np.uint64)

    def l3(col, lo, hi):
        f = np.stack([((v[:, col] >> 21) & 2047) / 2047.0, ((v[:, col] >> 11) & 1023) / 1023.0,
                      (v[:, col] & 2047) / 2047.0], 1)
        return ch[:, lo:lo + 3] + f * (ch[:, hi:hi + 3] - ch[:, lo:lo + 3])
    means, scales = l3(0, 0, 3), l3(2, 6, 9)
    q = v[:, 1]
    big = (q >> 30).astype(int)
    s = np.stack([(((q >> k) & 1023) / 1023.0 - 0.5) * SQ2 for k in (20, 10, 0)], 1)
    m = np.sqrt(np.maximum(0.0, 1.0 - (s * s).sum(1)))
    quats = np.empty((n, 4))
    for b in range(4):
        r = big == b
        o = [i for i in range(4) if i != b]
        quats[r, b] = m[r]
        for j in range(3):
            quats[r, o[j]] = s[r, j]
    c = v[:, 3]
    f = np.stack([((c >> k) & 255) / 255.0 for k in (24, 16, 8)], 1)
    rgb = ch[:, 12:15] + f * (ch[:, 15:18] - ch[:, 12:15])
    sh0 = (rgb - 0.5) / C0
    co = (c & 255).astype(np.float64)
    with np.errstate(divide="ignore"):
        op = np.where(co == 0, -10.0, np.where(co == 255, 10.0, np.log(co / (255.0 - co))))
    if sh is None:
        shn = np.zeros((n, 0, 3))
    else:
        k = sh.shape[1] // 3
        shn = ((sh.astype(np.float64) - 127.5) / 32.0).reshape(n, 3, k).transpose(0, 2, 1)
    return {"means": means, "scales": scales, "quats": quats, "opacities": op, "sh0": sh0, "shN": shn}


# --- conversions (float64) ------------------------------------------------------------------

def sigmoid(x):
    x = np.asarray(x, np.float64)
    with np.errstate(over="ignore"):
        e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def logit(p):
    p = np.asarray(p, np.float64)
    return np.log(p) - np.log1p(-p)
