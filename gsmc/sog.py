"""Hand-assembled SOG archives (metadata versions 2 and 3) and an independent float64 decoder of the format."""
import io
import json
import zipfile

import numpy as np

COEFFS = {0: 0, 1: 3, 2: 8, 3: 15}
NAMES = {"means_l": "means_l.webp", "means_u": "means_u.webp", "quats": "quats.webp", "scales": "scales.webp", "sh0": "sh0.webp",
         "centroids": "shN_centroids.webp", "labels": "shN_labels.webp"}


class Sog:
    """meta (dict) + textures {logical name: (H, W, 4) uint8}."""

    def __init__(self, meta, tex):
        self.meta, self.tex = meta, tex

    def files(self, names=None):
        import imagecodecs
        names = names or NAMES
        out = {"meta.json": json.dumps(self.meta).encode()}
        for k, a in self.tex.items():
            out[names[k]] = imagecodecs.webp_encode(np.array(a, order="C").copy(), lossless=True, level=0)
        return out


def zipped(files, deflate=False, order=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if deflate else zipfile.ZIP_STORED) as z:
        for n in order or files:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), files[n], z.compression)
    return b.getvalue()


def rgba(codes, n, w=None, fill=0):
    """(n, 4) codes -> (H, W, 4) texture, row-major; the unused tail gets `fill`."""
    w = w or max(1, int(np.ceil(np.sqrt(max(n, 1)))))
    h = max(1, -(-n // w))
    t = np.full((h * w, 4), fill, np.uint8)
    t[:n] = codes
    return t.reshape(h, w, 4)


def make(version, n, degree, codes, bounds=None, palette=64, widths=None, fill=0, codebooks=None):
    """codes: dict of (n,4) arrays means_l, means_u, quats, scales, sh0, labels; centroids (palette rows, coeffs, 3)."""
    b = {"means": ([-2.0, -3.5, 0.25], [4.0, -1.25, 7.5]), "scales": ([-9.0, -8.0, -7.5], [0.5, 1.0, 2.25]),
         "sh0": ([-2.0, -1.5, -1.0, -6.0], [2.0, 2.5, 3.0, 7.0]), "shN": (-0.75, 1.125)}
    b.update(bounds or {})
    cb = {"scales": (np.arange(256) * 0.03125 - 7.0), "sh0": (np.arange(256) * 0.015625 - 1.75), "shN": (np.arange(256) * 0.0078125 - 0.9)}
    cb.update(codebooks or {})
    w = widths or {}
    tex = {k: rgba(codes[k], n, w.get(k), fill) for k in ("means_l", "means_u", "quats", "scales", "sh0")}
    L = lambda x: np.asarray(x, np.float64).tolist()
    m = {"means": {"files": ["means_l.webp", "means_u.webp"], "mins": L(b["means"][0]), "maxs": L(b["means"][1])},
         "quats": {"files": ["quats.webp"]}, "scales": {"files": ["scales.webp"]}, "sh0": {"files": ["sh0.webp"]}}
    k = COEFFS[degree]
    if version == 2:
        m = {"version": 2, "count": n, **m}
        m["scales"]["codebook"] = L(cb["scales"])
        m["sh0"]["codebook"] = L(cb["sh0"])
    else:
        m["means"]["shape"] = [n, 3]
        m["quats"]["shape"] = [n, 4]
        m["scales"].update(shape=[n, 3], mins=L(b["scales"][0]), maxs=L(b["scales"][1]))
        m["sh0"].update(shape=[n, 1, 4], mins=L(b["sh0"][0]), maxs=L(b["sh0"][1]))
    if k:
        rows = -(-palette // 64)
        cen = np.full((rows, 64 * k, 4), 255, np.uint8)
        full = np.zeros((rows * 64, k, 3), np.uint8)
        c = codes["centroids"]
        full[:len(c)] = c
        cen[..., :3] = full.reshape(rows, 64 * k, 3)
        tex["centroids"] = cen
        tex["labels"] = rgba(codes["labels"], n, w.get("labels"), fill)
        m["shN"] = {"files": ["shN_centroids.webp", "shN_labels.webp"]}
        if version == 2:
            m["shN"].update(count=palette, bands=degree, codebook=L(cb["shN"]))
        else:
            m["shN"].update(shape=[n, k], mins=float(b["shN"][0]), maxs=float(b["shN"][1]), quantization=8)
    return Sog(m, tex)


def default_codes(n, degree, palette=64, salt=0):
    """Distinct, deterministic codes in every channel."""
    i = np.arange(n)[:, None] * 4 + np.arange(4)[None] + salt
    k = COEFFS[degree]
    u = lambda a: (a % 256).astype(np.uint8)
    c = {"means_l": u(i * 37 + 11), "means_u": u(i * 53 + 7), "quats": u(i * 29 + 3), "scales": u(i * 71 + 5), "sh0": u(i * 41 + 17)}
    for x in c.values():
        x[:, 3] |= 1
    c["quats"][:, 3] = 252 + np.arange(n) % 4
    if k:
        lab = (np.arange(n) * 13 + salt) % palette
        c["labels"] = np.stack([lab & 255, lab >> 8, np.full(n, 9), np.full(n, 255)], 1).astype(np.uint8)
        c["centroids"] = u(np.arange(palette * k * 3).reshape(palette, k, 3) * 31 + 2)
    return c


def simple(version, n, degree, palette=64, salt=0, **kw):
    return make(version, n, degree, default_codes(n, degree, palette, salt), palette=palette, **kw)


def decode(s):
    """float64 decode of the published format -> dict of arrays plus per-attribute magnitude for rounding bounds."""
    m, t = s.meta, s.tex
    v3 = "count" not in m
    n = m["means"]["shape"][0] if v3 else m["count"]
    f = lambda k: t[k].reshape(-1, 4)[:n].astype(np.float64)
    lo, hi = np.array(m["means"]["mins"]), np.array(m["means"]["maxs"])
    x = (f("means_l") + 256 * f("means_u"))[:, :3] / 65535.0
    x = lo + x * np.where(hi == lo, 1.0, hi - lo)
    means = np.sign(x) * np.expm1(np.abs(x))
    q = f("quats")
    quats = np.zeros((n, 4))
    tag = q[:, 3].astype(int)
    c = (q[:, :3] / 255.0 * 2 - 1) / np.sqrt(2.0)
    for b in range(4):
        r = tag == 252 + b
        quats[r, b] = np.sqrt(np.maximum(0.0, 1.0 - (c[r] ** 2).sum(1)))
        for j, o in enumerate(o for o in range(4) if o != b):
            quats[r, o] = c[r, j]
    quats[tag < 252] = (0, 0, 0, 1)
    sc, s0 = f("scales")[:, :3], f("sh0")
    if v3:
        def lerp(a, key):
            lo, hi = np.array(m[key]["mins"]), np.array(m[key]["maxs"])
            return lo + a / 255.0 * (hi - lo)
        scales = lerp(sc, "scales")
        z = lerp(s0, "sh0")
        sh0, op = z[:, :3], z[:, 3]
    else:
        scales = np.array(m["scales"]["codebook"])[sc.astype(int)]
        sh0 = np.array(m["sh0"]["codebook"])[s0[:, :3].astype(int)]
        a = np.clip(s0[:, 3] / 255.0, 1e-6, 1 - 1e-6)
        op = np.log(a / (1 - a))
    shn = np.zeros((n, 0, 3))
    if "shN" in m:
        h = m["shN"]
        k = h["shape"][1] if v3 else COEFFS[h["bands"]]
        if k:
            cen = t["centroids"]
            pal = cen.shape[0] * 64 if v3 else h["count"]
            lab = (f("labels")[:, 0] + 256 * f("labels")[:, 1]).astype(int)
            shn = np.zeros((n, k, 3))
            rows = cen.reshape(cen.shape[0] * 64, k, 4)[..., :3]
            for i in range(n):
                if lab[i] < pal:
                    code = rows[lab[i]]
                    shn[i] = h["mins"] + code / 255.0 * (h["maxs"] - h["mins"]) if v3 else np.array(h["codebook"])[code]
    return {"means": means, "scales": scales, "quats": quats, "opacities": op, "sh0": sh0, "shN": shn, "logmeans": x}
