"""All public readers and writers of the compressed format, and comparison with the reference decoder."""
import os

import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import ATTRS, plain_of


def _file(ctx, b, name):
    f = ctx.path(name)
    with open(f, "wb") as h:
        h.write(b)
    return f


def readers():
    import gsply
    import torch
    from gsply.reader import read_compressed
    from gsply.torch.compression import read_compressed_gpu
    T = gsply.GSTensor
    return {
        "plyread": lambda c, b: gsply.plyread(_file(c, b, "r.compressed.ply")),
        "plyread(.ply)": lambda c, b: gsply.plyread(_file(c, b, "r.ply")),
        "GSData.load": lambda c, b: gsply.GSData.load(_file(c, b, "r.ply_compressed")),
        "read_compressed": lambda c, b: read_compressed(_file(c, b, "r.compressed.ply")),
        "bytes": lambda c, b: gsply.decompress_from_bytes(b),
        "GSTensor.load": lambda c, b: T.load(_file(c, b, "r.compressed.ply"), device="cpu"),
        "from_compressed": lambda c, b: T.from_compressed(_file(c, b, "r.ply"), device="cpu"),
        "read_compressed_gpu": lambda c, b: read_compressed_gpu(_file(c, b, "r.bin"), device="cpu"),
        "plyread_gpu": lambda c, b: gsply.plyread_gpu(_file(c, b, "r.compressed.ply"), device="cpu"),
        "plyread_gpu(cpu:0)": lambda c, b: gsply.plyread_gpu(_file(c, b, "r.compressed.ply"), device="cpu:0"),
        "read_compressed_gpu(device)": lambda c, b: read_compressed_gpu(_file(c, b, "r.bin"), device=torch.device("cpu")),
    }


def _w(ctx, name, out, fn):
    f = ctx.path(name)
    o = ctx.path(out)
    for x in (f, o):
        if os.path.exists(x):
            os.unlink(x)
    fn(f)
    with open(o, "rb") as h:
        return h.read()


def cpu_writers():
    """name -> f(ctx, g) -> bytes; g in PLY units."""
    import gsply
    from gsply.writer import write_compressed

    def arr(g, flat=False):
        s = g.shN
        if flat and s is not None:
            s = np.asarray(s).transpose(0, 2, 1).reshape(len(g), 3 * s.shape[1])
        return g.means, g.scales, g.quats, g.opacities, g.sh0, s

    def joined(t):
        h, c, d, s = t
        return h + c.tobytes() + d.tobytes() + (b"" if s is None else s.tobytes())
    return {
        "flag": lambda c, g: _w(c, "w.ply", "w.compressed.ply", lambda f: gsply.plywrite(f, g, compressed=True)),
        "flag_noext": lambda c, g: _w(c, "w", "w.compressed.ply", lambda f: gsply.plywrite(f, g, compressed=True)),
        "ext": lambda c, g: _w(c, "w.compressed.ply", "w.compressed.ply", lambda f: gsply.plywrite(f, g)),
        "ext2": lambda c, g: _w(c, "w.ply_compressed", "w.ply_compressed", lambda f: gsply.plywrite(f, g)),
        "flag+ext": lambda c, g: _w(c, "w.ply_compressed", "w.ply_compressed", lambda f: gsply.plywrite(f, g, compressed=True)),
        "arrays_flag": lambda c, g: _w(c, "w.ply", "w.compressed.ply", lambda f: gsply.plywrite(f, *arr(g), compressed=True)),
        "arrays_flat": lambda c, g: _w(c, "w.ply", "w.compressed.ply", lambda f: gsply.plywrite(f, *arr(g, True), compressed=True)),
        "save": lambda c, g: _w(c, "w.ply", "w.compressed.ply", lambda f: g.save(f, compressed=True)),
        "save_ext": lambda c, g: _w(c, "w.compressed.ply", "w.compressed.ply", lambda f: g.save(f)),
        "write_compressed": lambda c, g: _w(c, "w.x", "w.x", lambda f: write_compressed(f, *arr(g))),
        "write_compressed_flat": lambda c, g: _w(c, "w.x", "w.x", lambda f: write_compressed(f, *arr(g, True))),
        "write_compressed_noval": lambda c, g: _w(c, "w.x", "w.x", lambda f: write_compressed(f, *arr(g), validate=False)),
        "bytes": lambda c, g: gsply.compress_to_bytes(g),
        "bytes_arrays": lambda c, g: gsply.compress_to_bytes(*arr(g)),
        "bytes_flat": lambda c, g: gsply.compress_to_bytes(*arr(g, True)),
        "arrays": lambda c, g: joined(gsply.compress_to_arrays(g)),
        "arrays_arrays": lambda c, g: joined(gsply.compress_to_arrays(*arr(g))),
    }


def tensor_writers():
    import gsply
    from gsply.torch.compression import write_compressed_gpu
    o = "t.compressed.ply"
    return {
        "plywrite_gpu": lambda c, t: _w(c, o, o, lambda f: gsply.plywrite_gpu(f, t)),
        "t.save": lambda c, t: _w(c, o, o, lambda f: t.save(f)),
        "t.save(other)": lambda c, t: _w(c, "t.bin", "t.bin", lambda f: t.save(f, compressed=True)),
        "t.save_compressed": lambda c, t: _w(c, o, o, lambda f: t.save_compressed(f)),
        "write_compressed_gpu": lambda c, t: _w(c, o, o, lambda f: write_compressed_gpu(f, t)),
    }


def agrees(got, d, what):
    """A decoded scene (Plain) equals the float64 reference decode up to float32 rounding."""
    for a in ATTRS:
        x, y = getattr(got, a), d[a]
        need(x.shape == y.shape, f"{what}:{a}:shape", lambda: f"{a} {x.shape} expected {y.shape}")
        need(x.dtype == np.float32, f"{what}:{a}:dtype", lambda: str(x.dtype))
        x = x.astype(np.float64)
        if a in ("means", "scales"):
            lim = d["ulp_" + a]
        elif a == "sh0":
            lim = d["ulp_sh0"]
        elif a == "opacities":
            lim = 4e-6 + 4e-6 * np.abs(y)
        elif a == "shN":
            lim = np.full(y.shape, 1e-6)
        else:
            lim = np.full(y.shape, 2e-6)
            # the reconstructed component is a root of 1-sum: compare squares, where rounding is bounded
            sq = np.abs(np.sign(x) * x * x - np.sign(y) * y * y) <= 4e-6
            bad = ~((np.abs(x - y) <= lim) | sq)
            if bad.any():
                i = int(np.argwhere(bad.any(1))[0][0])
                need(False, f"{what}:quats:value", f"row {i}: {x[i].tolist()} expected {y[i].tolist()} ({int(bad.any(1).sum())} rows)")
            continue
        bad = ~(np.abs(x - y) <= lim)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            need(False, f"{what}:{a}:value", f"{a}{list(i)} decoded {x[i]!r}, the format defines {y[i]!r} ({int(bad.sum())} cells)")


def reference(chunk, vert, sh):
    d = refs.unpack(chunk, vert, sh)
    n = len(vert)
    ch = np.abs(chunk.astype(np.float64))[np.arange(n) // 256] if n else np.zeros((0, 18))
    for a, lo, hi in (("means", 0, 3), ("scales", 6, 9), ("sh0", 12, 15)):
        m = np.maximum(ch[:, lo:lo + 3], ch[:, hi:hi + 3])
        d["ulp_" + a] = 4e-7 * m + 1e-37
    d["ulp_sh0"] = (d["ulp_sh0"] + 4e-7) / refs.C0
    return d


def check_all(ctx, blob, d, what, only=None):
    for nm, rd in readers().items():
        if only and nm not in only:
            continue
        ctx.beat()
        ctx.evaluations += 1
        g = rd(ctx, blob)
        need(g is not None, f"{what}:{nm}:rejected", "the reader rejected a valid compressed file")
        p = plain_of(g)
        agrees(p, d, f"{what}:{nm}")
        need(p.labels == ("ply", "ply", "sh"), f"{what}:{nm}:labels", lambda: str(p.labels))
