"""C17: factories keep the given data and label it by one documented rule; scenes that cannot be formed are not saved."""
import itertools
import os
import struct

import numpy as np

from gsmc import refs
from gsmc.codec import readers
from gsmc.core import need
from gsmc.data import ATTRS, DEG, KS, Plain, labels_of, npy, order_of, plain_of, realistic
from gsmc.hist import m_ply
from gsmc.packed import check_decoded

LEVEL = "exploration"
RULE = ("Factories: every (factory, container, preset, SH degree, colour label, degree argument, dtype, layout, size, shN form) combination, all attributes compared bit for bit and labels exactly. "
        "Automatic labels: all patterns over an alphabet of boundary values for one Gaussian, and every (size, number of exceptional values, kind, placement) for larger scenes, through constructor, "
        "from_arrays and from_dict of both containers and through the three ways of saving raw arrays (read back by an independent parser), against the documented rule. Faults: every "
        "attribute x shape fault x size x degree x scene form through every writer: an error, and no file that reads as a scene. Distinct states are hashed by the full case.")
BOUND = {
    "quick": "sizes 0..3, 5; 4 presets; 4 degrees; alphabets of 12 scale and 11 opacity values (all 12^3 x 11 patterns for N=1); 9 sizes from 200 to 100,003 with one exceptional scale at 24 places and 8 numbers of exceptional opacities in 5 arrangements; counts: N<=64, all counts of exceptional values x 3 placements; 38 shape faults x 19 writers",
    "thorough": "the same with N<=200, all 12^3 x 11^2 patterns for N=2 with equal first row, and faults at 4 sizes and 4 degrees in 3 scene forms",
}
ASSUMPTIONS = ["values at which single and double precision disagree about a threshold are not enumerated", "saving with validate=False makes no promise about malformed scenes", "CPU tensors only"]
WARM = ["g", "t"]


def rule(scales, opac):
    """The documented automatic rule, on float64 copies."""
    s, o = np.asarray(scales, np.float64).ravel(), np.asarray(opac, np.float64).ravel()
    if s.size == 0 or o.size == 0:
        return "ply", "ply"
    neg = int((s < 0).sum())
    with np.errstate(invalid="ignore"):
        lin = neg == 0 and bool((np.abs(s) < 10).all())
        inside = int(((o >= 0) & (o <= 1)).sum())
    # more than 95 % of the opacities in [0, 1]; integers, so that no rounding enters
    return ("linear" if lin else "ply"), ("linear" if inside * 20 > 19 * o.size else "ply")


SA = np.array([-0.0, 0.0, 1e-9, 0.5, np.nextafter(np.float32(10), np.float32(0)), 10.0, np.nextafter(np.float32(10), np.float32(20)), -1e-30, -5.0, 11.0, np.nan, np.inf], np.float32)
OA = np.array([-0.0, 0.0, 1e-7, 0.5, 1.0, np.nextafter(np.float32(1), np.float32(2)), -1e-30, -3.0, 5.0, np.nan, np.inf], np.float32)


def makers():
    import gsply
    import torch
    G, T = gsply.GSData, gsply.GSTensor
    tt = lambda a: [None if x is None else torch.from_numpy(np.array(x, order="C")) for x in a]
    d = lambda a: dict(zip(ATTRS, a))
    return {
        "GSData()": lambda a, kw: G(*a),
        "GSData.from_arrays": lambda a, kw: G.from_arrays(*a, **kw),
        "GSData.from_dict": lambda a, kw: G.from_dict(d(a), **kw),
        "GSTensor()": lambda a, kw: T(*tt(a)),
        "GSTensor.from_arrays": lambda a, kw: T.from_arrays(*tt(a), **kw),
        "GSTensor.from_dict": lambda a, kw: T.from_dict(d(tt(a)), device="cpu", **kw),
    }


# --- factories ---------------------------------------------------------------------------

FORMATS = {"auto": None, "ply": "ply", "linear": "linear", "rasterizer": "linear"}


def one_factory(ctx, maker, preset, k, color, n, form, deg):
    """Values bit for bit, labels exactly."""
    from gsply.gsdata import DataFormat
    p = realistic(n, k, 3)
    if n:
        p.scales[0, 0] = -3.0
        p.opacities[0] = 4.0
    a = list(p.arrays())
    if form == "none" and k == 0:
        a[5] = None
    elif form == "f64":
        a = [x.astype(np.float64) for x in a]
    elif form == "F":
        a = [np.asfortranarray(x) for x in a]
    elif form == "view":
        t = np.zeros((n, 60), np.float32)
        b, i = [], 0
        for x in a:
            w = int(np.prod(x.shape[1:]))
            t[:, i:i + w] = x.reshape(n, w)
            b.append(t[:, i:i + w].reshape(x.shape) if x.ndim != 1 else t[:, i])
            i += w
        a = b
    elif form == "strict":
        p.scales[:] = 0.25
        p.opacities[:] = 0.5
        a = list(p.arrays())
    keep = [None if x is None else np.array(x) for x in a]
    kw = {"format": preset}
    if color == "rgb":
        kw["sh0_format"] = DataFormat.SH0_RGB
    if deg:
        kw["sh_degree"] = DEG[k]
    ctx.saw("factory", maker, preset, k, color, n, form, deg)
    g = makers()[maker](a, kw)
    for x, nm in zip(keep, ATTRS):
        y = getattr(g, nm)
        if x is None:
            need(y is None or np.asarray(npy(y)).size == 0, f"values:{maker}:shN", "coefficients appeared")
            continue
        y = np.asarray(npy(y))
        need(y.dtype == x.dtype and y.shape == x.shape and y.tobytes() == x.tobytes(), f"values:{maker}:{nm}", f"{y.dtype}{y.shape} differs from the given {x.dtype}{x.shape}")
    for x, y in zip(keep, a):
        need(x is None or x.tobytes() == np.asarray(y).tobytes(), f"input:{maker}", "the arrays given were changed")
    want = FORMATS[preset]
    lab = (want, want) if want else rule(p.scales, p.opacities)
    need(labels_of(g) == (*lab, color), f"labels:{maker}:{preset}", f"{labels_of(g)} instead of {(*lab, color)}")
    need(order_of(g) == DEG[k] and g.get_sh_degree() == DEG[k], f"degree:{maker}", f"{order_of(g)}, {g.get_sh_degree()} instead of {DEG[k]}")
    need(len(g) == n and g.masks is None and g.mask_names is None, f"extra:{maker}", "wrong length, or masks appeared")


def one_dtype(ctx, maker, dt, given):
    """Tensor factories with an explicit or inferred type."""
    import gsply
    import torch
    p = realistic(4, 3, 1)
    dtypes = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16}
    a = [torch.from_numpy(x.copy()).to(dtypes[given]) for x in p.arrays()]
    keep = [x.clone() for x in a]
    kw = {} if dt is None else {"dtype": dtypes[dt]}
    g = gsply.GSTensor.from_arrays(*a, **kw) if maker == "from_arrays" else gsply.GSTensor.from_dict(dict(zip(ATTRS, a)), device="cpu", **kw)
    want = dtypes[dt or given]
    ctx.saw("dtype", maker, dt, given)
    for x, z, nm in zip(keep, a, ATTRS):
        y = getattr(g, nm)
        need(y.dtype == want and torch.equal(y, x.to(want)), f"values:GSTensor.{maker}:{nm}", f"{y.dtype} {given} {dt}")
        need(torch.equal(x, z), "input:GSTensor", "the tensors given were changed")
    need(labels_of(g) == (*rule(npy(a[1].double()), npy(a[3].double())), "sh"), f"labels:GSTensor.{maker}", str(labels_of(g)))


def one_bad_preset(ctx):
    p = realistic(3, 0)
    for m, f in makers().items():
        if m.endswith("()"):
            continue
        for bad in ("PLY", "", "log", "lin", None, 3, "sh", "compressed"):
            ctx.evaluations += 1
            try:
                f(p.arrays(), {"format": bad})
            except Exception:  # noqa: BLE001, S112
                continue
            need(False, f"preset:{m}", f"{bad!r} accepted")
    import gsply
    import torch
    for nm in ATTRS[:5]:
        d = dict(zip(ATTRS, p.arrays()))
        del d[nm]
        for f in (lambda: gsply.GSData.from_dict(d), lambda: gsply.GSTensor.from_dict({k: torch.from_numpy(v) for k, v in d.items()}, device="cpu")):
            ctx.evaluations += 1
            try:
                f()
            except Exception:  # noqa: BLE001, S112
                continue
            need(False, "dict", f"accepted without {nm}")
    for k in KS:
        for preset, fn in (("ply", gsply.create_ply_format), ("linear", gsply.create_rasterizer_format)):
            for color in (None, gsply.gsdata.DataFormat.SH0_RGB, gsply.gsdata.DataFormat.SH0_SH):
                q = realistic(2, k)
                fm = fn(DEG[k], color) if color is not None else fn(DEG[k])
                keep = dict(fm)
                for g in (gsply.GSData(*q.arrays(), _format=fm), gsply.GSTensor(*[torch.from_numpy(x) for x in q.arrays()], _format=fm)):
                    ctx.evaluations += 1
                    need(labels_of(g) == (preset, preset, "rgb" if color == gsply.gsdata.DataFormat.SH0_RGB else "sh") and order_of(g) == DEG[k], f"preset format:{preset}", str(labels_of(g)))
                    g._format["scales"] = None
                    need(fm == keep, "preset format", "the format dictionary given is shared with the scene")


# --- automatic labels ---------------------------------------------------------------------

def stored(raw, packed):
    if packed:
        d = refs.unpack(*refs.split_packed(raw))
        return Plain(*[d[a].astype(np.float32) for a in ATTRS])
    return Plain.from_table(refs.split_uncompressed(raw)[1])


def raw_savers():
    import gsply

    def file(ctx, a):
        f = ctx.path("c17.ply")
        gsply.plywrite(f, *a)
        return open(f, "rb").read(), False

    def join(t):
        h, c, d, s = t
        return h + c.tobytes() + d.tobytes() + (b"" if s is None else s.tobytes())
    return {"plywrite": file, "compress_to_bytes": lambda c, a: (gsply.compress_to_bytes(*a), True), "compress_to_arrays": lambda c, a: (join(gsply.compress_to_arrays(*a)), True)}


def auto(ctx, p, what, saves=(), order=True):
    """All routes label these values by the rule; raw arrays are stored in PLY units accordingly."""
    want = rule(p.scales, p.opacities)
    for m, f in makers().items():
        ctx.evaluations += 1
        g = f(p.arrays(), {})
        got = labels_of(g)
        need(got == (*want, "sh"), f"auto:{m}", lambda: f"{got[:2]} instead of {want} for {what}: scales {p.scales.ravel()[:12]}, opacities {p.opacities.ravel()[:24]}")
    q = p.copy()
    q.labels = (*want, "sh")
    w, ap = m_ply(q)
    for nm in saves:
        ctx.evaluations += 1
        raw, packed = raw_savers()[nm](ctx, [x.copy() for x in p.arrays()])
        got = stored(raw, packed)
        for a in ("scales", "opacities"):
            x, y = getattr(got, a).astype(np.float64), getattr(w, a).astype(np.float64)
            if packed:
                tol = 0.05 if a == "opacities" else 0.02 * np.maximum(1, np.ptp(y) if y.size else 1)
                if a == "opacities":
                    x, y = refs.sigmoid(np.clip(x, -30, 30)), refs.sigmoid(np.clip(y, -30, 30))
                    tol = 0.005
                else:
                    y = np.clip(y, -20, 20)
            else:
                tol = 1e-5 * (1 + np.abs(y))
            with np.errstate(invalid="ignore"):
                ok = (np.abs(x - y) <= tol) | (x == y) | (np.isnan(x) & np.isnan(y))
            need(ok.all(), f"auto:{nm}", lambda: f"values labelled {want} ({what}) stored as {a} {x.ravel()[:6]}, in PLY units they are {y.ravel()[:6]}")


def one_row(ctx, i, j):
    """One Gaussian: two of three scale values fixed, all values of the third and of the opacity."""
    for z, o in itertools.product(SA, OA):
        p = realistic(1, 0)
        p.scales[0] = (SA[i], SA[j], z)
        p.opacities[0] = o
        ctx.saw("row", i, j, p.scales, p.opacities)
        finite = np.isfinite(p.scales).all() and np.isfinite(o)
        auto(ctx, p, "one Gaussian", ("plywrite", *(("compress_to_bytes", "compress_to_arrays") if finite and i == j else ())))


def one_rows(ctx, i, j):
    """Two Gaussians (thorough)."""
    for z, o, o2 in itertools.product(SA, OA, OA):
        p = realistic(2, 0)
        p.scales[0] = (0.5, 0.25, 1.0)
        p.scales[1] = (SA[i], SA[j], z)
        p.opacities[:] = (o, o2)
        auto(ctx, p, "two Gaussians")


def one_count(ctx, n, kind):
    """Every number of exceptional opacities and scales among n, at the start, at the end and spread."""
    vals = {"above": (1.5, 12.0), "below": (-0.5, -0.5), "edge": (float(np.nextafter(np.float32(1), np.float32(2))), 10.0), "nan": (np.nan, np.nan)}[kind]
    for place in ("first", "last", "spread"):
        for c in range(n + 1):
            at = {"first": np.arange(c), "last": np.arange(n - c, n), "spread": (np.arange(c) * n) // max(c, 1)}[place]
            p = realistic(n, 0)
            p.scales[:] = 0.3
            p.opacities[:] = 0.25
            p.opacities[at] = vals[0]
            near = abs(c * 20 - n) <= 20 or abs(c * 10 - n) <= 10 or c in (0, 1, n)
            ctx.saw("count", n, kind, place, c)
            auto(ctx, p, f"{c} of {n} opacities {vals[0]}", ("plywrite",) if near and kind != "nan" else ())
            if n <= 24:
                q = realistic(n, 0)
                q.scales[:] = 0.3
                q.opacities[:] = 0.25
                f = q.scales.reshape(-1)
                at3 = {"first": np.arange(c), "last": np.arange(3 * n - c, 3 * n), "spread": (np.arange(c) * 3 * n) // max(c, 1)}[place]
                f[at3] = vals[1]
                auto(ctx, q, f"{c} of {3 * n} scales {vals[1]}", ("plywrite",) if c in (0, 1, n) and kind != "nan" else ())


def one_invariant(ctx, n):
    """Labels depend on the values only: not on order, layout, type, SH degree or the other attributes."""
    for so, oo in itertools.product(("lin", "log", "one"), ("lin", "logit", "few")):
        p = realistic(n, 0)
        if so != "log":
            p.scales = np.abs(p.scales) / 10
            if so == "one" and n:
                p.scales[n // 2, 1] = -0.1
        if oo != "logit":
            p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
            if oo == "few":
                p.opacities[: n // 20] = 2
        auto(ctx, p, "base", ("plywrite", "compress_to_bytes", "compress_to_arrays"))
        for k in KS[1:]:
            q = realistic(n, k, 7)
            q.scales, q.opacities = p.scales, p.opacities
            auto(ctx, q, f"degree {DEG[k]}", ("plywrite",))
        q = p.copy()
        q.scales, q.opacities = q.scales[::-1], q.opacities[::-1]
        auto(ctx, q, "reversed view", ("plywrite",))
        q = p.copy()
        q.scales = np.asfortranarray(q.scales)
        q.opacities = np.repeat(q.opacities, 2)[::2]
        auto(ctx, q, "strided", ("plywrite",))
        q = p.copy()
        q.scales, q.opacities = q.scales.astype(np.float64), q.opacities.astype(np.float64)
        want = rule(p.scales, p.opacities)
        for m in ("GSData()", "GSData.from_arrays", "GSData.from_dict", "GSTensor()"):
            ctx.evaluations += 1
            need(labels_of(makers()[m](q.arrays(), {}))[:2] == want, f"auto:{m}", "another label for the same values in double precision")
        q = p.copy()
        q.means, q.quats, q.sh0 = -q.means * 100, q.quats * 0 + 5, q.sh0 * 50
        auto(ctx, q, "other attributes", ("plywrite",))


def one_large(ctx, n, kind):
    """The rule is one rule for every size: a single exceptional scale anywhere, opacities on either side of the limit anywhere."""
    places = sorted({i % n for i in (0, 1, 99, 100, 127, 255, 256, 511, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10000, 49999, n // 3, n // 2 + 1, 2 * n // 3, n - 1000, n - 2, n - 1)})
    base = Plain(np.zeros((n, 3), np.float32), np.full((n, 3), 0.3, np.float32), np.ones((n, 4), np.float32), np.full(n, 0.25, np.float32), np.zeros((n, 3), np.float32),
                 np.zeros((n, 0, 3), np.float32), ("ply", "ply", "sh"), np.ones(n, bool))
    if kind in ("neg", "ten", "nan"):
        v = {"neg": -0.1, "ten": 10.0, "nan": np.nan}[kind]
        for i, at in enumerate(places):
            base.scales[at, i % 3] = v
            auto(ctx, base, f"one scale {v} at row {at} of {n}", ("plywrite", "compress_to_bytes") if i % 6 == 0 and kind != "nan" else ())
            base.scales[at, i % 3] = 0.3
            ctx.saw("large", n, kind, at)
        return
    lim = n - (n * 19) // 20 - 1    # the most exceptional opacities for which still more than 95 % lie inside
    if (n - lim) * 20 <= 19 * n:
        lim -= 1
    for v in (1.5, -3.0):
        for c in (0, 1, lim - 1, lim, lim + 1, lim + 2, n // 2, n):
            rows = {"first": np.arange(c), "last": np.arange(n - c, n), "spread": (np.arange(c) * n) // max(c, 1), "middle": n // 2 - c // 2 + np.arange(c), "odd": np.r_[1:n:2, 0:n:2][:c]}
            for place, at in rows.items():
                base.opacities[at] = v
                auto(ctx, base, f"{c} of {n} opacities {v}, {place}", ("plywrite", "compress_to_arrays") if place == "spread" and c in (lim, lim + 1) else ())
                base.opacities[at] = 0.25
                ctx.saw("large", n, kind, v, c, place)


# --- malformed scenes -----------------------------------------------------------------------

def faults(n, k):
    """(attribute, name, f(array) -> malformed array)."""
    col = {"means": 3, "scales": 3, "quats": 4, "sh0": 3}
    grow = lambda x: np.concatenate([x, x[:1]]) if len(x) else np.zeros((1, *x.shape[1:]), x.dtype)
    for a in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        if a == "shN" and k == 0:
            continue
        if n:
            yield a, "shorter", lambda x: x[:-1]
            if n > 1:
                yield a, "one row", lambda x: x[:1]
                yield a, "empty", lambda x: x[:0]
        yield a, "longer", grow
        if n > 1:
            yield a, "double", lambda x: np.concatenate([x, x])
    for a, w in col.items():
        yield a, "one column less", lambda x: x[:, :-1]
        yield a, "one column more", lambda x: np.concatenate([x, x[:, :1]], 1)
        yield a, "one column", lambda x: x[:, :1]
        yield a, "flat", lambda x: x[:, 0]
        if n != w:
            yield a, "transposed", lambda x: x.T
        yield a, "none", lambda x: None
    yield "opacities", "two columns", lambda x: np.stack([x, x], 1)
    yield "opacities", "scalar", lambda x: np.float32(0.5) * np.ones((), np.float32)
    yield "opacities", "none", lambda x: None
    if n and k:
        yield "shN", "two channels", lambda x: x[:, :, :2]
        yield "shN", "four channels", lambda x: np.concatenate([x, x[:, :, :1]], 2)


def bands(k):
    for b in (1, 2, 4, 5, 7, 9, 14, 16, 24, 45):
        yield "shN", f"{b} bands", lambda x, b=b: np.resize(x if x.size else np.float32(0.1), (len(x), b, 3)).astype(np.float32)


def writers():
    import gsply
    from gsply.torch.compression import write_compressed_gpu
    from gsply.writer import write_compressed, write_uncompressed
    un = lambda g: (g.means, g.scales, g.quats, g.opacities, g.sh0, g.shN)
    u, c = ".ply", ".compressed.ply"
    return {   # name: (container, extension of the output, packed, f(path, scene))
        "plywrite": ("np", u, False, lambda f, g: gsply.plywrite(f, g)),
        "save": ("np", u, False, lambda f, g: g.save(f)),
        "write_uncompressed": ("np", u, False, lambda f, g: write_uncompressed(f, g)),
        "plywrite(arrays)": ("raw", u, False, lambda f, g: gsply.plywrite(f, *un(g))),
        "plywrite(c)": ("np", c, True, lambda f, g: gsply.plywrite(f, g)),
        "plywrite(flag)": ("np", c, True, lambda f, g: gsply.plywrite(f, g, compressed=True)),
        "save(c)": ("np", c, True, lambda f, g: g.save(f, compressed=True)),
        "write_compressed": ("raw", c, True, lambda f, g: write_compressed(f, *un(g))),
        "plywrite(arrays,c)": ("raw", c, True, lambda f, g: gsply.plywrite(f, *un(g), compressed=True)),
        "to_bytes": ("np", c, True, lambda f, g: gsply.compress_to_bytes(g)),
        "to_bytes(arrays)": ("raw", c, True, lambda f, g: gsply.compress_to_bytes(*un(g))),
        "to_arrays": ("np", c, True, lambda f, g: gsply.compress_to_arrays(g)),
        "to_arrays(arrays)": ("raw", c, True, lambda f, g: gsply.compress_to_arrays(*un(g))),
        "t.save": ("t", c, True, lambda f, g: g.save(f)),
        "t.save(u)": ("t", u, False, lambda f, g: g.save(f, compressed=False)),
        "t.save_compressed": ("t", c, True, lambda f, g: g.save_compressed(f)),
        "plywrite_gpu": ("t", c, True, lambda f, g: gsply.plywrite_gpu(f, g)),
        "write_compressed_gpu": ("t", c, True, lambda f, g: write_compressed_gpu(f, g)),
        "plywrite(tensor)": ("t", u, False, lambda f, g: gsply.plywrite(f, g)),
    }


class Bag:
    pass


def malformed(p, attr, f, form, container, name=""):
    """A scene in which one attribute is malformed: built so, or damaged after having been consolidated."""
    import gsply
    import torch

    from gsmc.data import fmt, gsdata
    from gsmc.thist import tensor
    bad = f(getattr(p, attr))
    if container == "raw":
        b = Bag()
        for a in ATTRS:
            setattr(b, a, bad if a == attr else getattr(p, a).copy())
        return b
    conv = (lambda x: None if x is None else x.copy()) if container == "np" else (lambda x: None if x is None else torch.from_numpy(np.array(x)))
    if form == "built":
        arr = [conv(bad if a == attr else getattr(p, a)) for a in ATTRS]
        g = (gsply.GSData if container == "np" else gsply.GSTensor)(*arr, _format=fmt(p.labels, p.k))
        if attr == "shN" and name.endswith(" bands") and len(p) % 2:     # such a scene is consolidated like any other
            g = g.consolidate()
        return g
    g = gsdata(p) if container == "np" else tensor(p)
    if form == "consolidated":
        g = g.consolidate()
    setattr(g, attr, conv(bad))
    return g


def one_fault(ctx, w, n, k, form, lab):
    container, ext, packed, f = writers()[w]
    p = realistic(n, k, 2)
    if lab == "linear":
        p.scales, p.opacities = np.exp(p.scales), refs.sigmoid(p.opacities).astype(np.float32)
        p.labels = ("linear", "linear", "sh")
    if container == "raw" and form != "built":
        return
    allf = list(faults(n, k)) + ([] if packed else list(bands(k)))
    for attr, name, fn in allf:
        if container == "t" and n and name == "transposed":
            pass
        case = {"f": "one_fault", "a": [w, n, k, form, lab], "attr": attr, "fault": name}
        ctx.beat(case)
        ctx.evaluations += 1
        ctx.saw("fault", w, n, k, form, lab, attr, name)
        out = ctx.path("bad" + ext)
        if os.path.exists(out):
            os.unlink(out)
        try:
            g = malformed(p, attr, fn, form, container, name)
            r = f(out, g)
        except Exception:  # noqa: BLE001
            if os.path.exists(out):
                for nm, rd in readable(out, packed):
                    need(False, f"file:{w}:{attr}:{name}", f"refused, but a file was left behind that {nm} reads as {rd} Gaussians")
            continue
        size = os.path.getsize(out) if os.path.exists(out) else (len(r) if isinstance(r, bytes) else None)
        try:
            ctx.violation(f"accepted:{w}:{attr}:{name}", f"{n} Gaussians of degree {DEG[k]} with malformed {attr} ({name}) saved without an error ({size} bytes)", case)
        finally:
            pass


def readable(path, packed):
    import gsply
    try:
        g = gsply.plyread(path)
    except Exception:  # noqa: BLE001
        return
    yield "plyread", len(g)


def one_good(ctx, w, n, k, form):
    """The same writers accept the well-formed scene (so that the faults above are what is refused)."""
    container, ext, packed, f = writers()[w]
    g = malformed(realistic(n, k, 2), "means", lambda x: x.copy(), form, container)
    out = ctx.path("good" + ext)
    r = f(out, g)
    raw = r if isinstance(r, bytes) else r[0] + b"".join(x.tobytes() for x in r[1:] if x is not None) if isinstance(r, tuple) else open(out, "rb").read()
    q = stored(raw, packed)
    need(len(q) == n and q.k == k, f"good:{w}", f"stored {len(q)} Gaussians with {q.k} bands")


FN = {f.__name__: f for f in (one_factory, one_dtype, one_bad_preset, one_row, one_rows, one_count, one_invariant, one_large, one_fault, one_good)}


def cases(tier):
    th = tier == "thorough"
    names = ("GSData.from_arrays", "GSData.from_dict", "GSTensor.from_arrays", "GSTensor.from_dict")
    for m, preset, k, color, n, form, deg in itertools.product(names, FORMATS, KS, ("sh", "rgb"), (0, 1, 2, 3, 5, 300) if th else (0, 1, 3), ("C", "none", "f64", "F", "view", "strict"), (False, True)):
        if form == "none" and k or form in ("F", "view") and m.startswith("GSTensor") and n == 0:
            continue
        yield one_factory, (m, preset, k, color, n, form, deg)
    for m, dt, given in itertools.product(("from_arrays", "from_dict"), (None, "f32", "f64", "f16"), ("f32", "f64", "f16")):
        yield one_dtype, (m, dt, given)
    yield one_bad_preset, ()
    for i, j in itertools.product(range(len(SA)), repeat=2):
        yield one_row, (i, j)
        if th:
            yield one_rows, (i, j)
    for n, kind in itertools.product(range(1, 201 if th else 65), ("above", "below", "edge", "nan")):
        yield one_count, (n, kind)
    for n in (0, 1, 2, 19, 20, 21, 40, 255):
        yield one_invariant, (n,)
    for n, kind in itertools.product((200, 1000, 1001, 2000, 4097, 10007, 33000, 65537, 100003) + ((5000, 8192, 50000, 131075, 300007, 1000003) if th else ()), ("neg", "ten", "nan", "opacity")):
        yield one_large, (n, kind)
    for w in writers_names:
        for n, k, form in ((4097, 0, "built"), (10007, 3, "built"), (70001, 0, "built")):
            yield one_good, (w, n, k, form)
            yield one_fault, (w, n, k, form, "ply")
        for n, k, form in itertools.product((0, 1, 2, 4), (0, 3, 8, 15), ("built", "replaced", "consolidated")):
            if form == "built" or not w.endswith("(arrays)") and not w.endswith("(arrays,c)") and w != "write_compressed":
                yield one_good, (w, n, k, form)
                if n in (1, 4) and (th or k in (0, 3)) or n == 0 and k == 0:
                    for lab in ("ply", "linear"):
                        yield one_fault, (w, n, k, form, lab)


writers_names = ("plywrite", "save", "write_uncompressed", "plywrite(arrays)", "plywrite(c)", "plywrite(flag)", "save(c)", "write_compressed", "plywrite(arrays,c)", "to_bytes", "to_bytes(arrays)",
                 "to_arrays", "to_arrays(arrays)", "t.save", "t.save(u)", "t.save_compressed", "plywrite_gpu", "write_compressed_gpu", "plywrite(tensor)")


def units(tier, seed):
    n = 96 if tier == "quick" else 240
    return [{"m": i, "n": n} for i in range(n)]


def run_unit(ctx, u):
    for i, (f, a) in enumerate(cases(ctx.tier)):
        if i % u["n"] == u["m"]:
            c = {"f": f.__name__, "a": a}
            ctx.case(c, f, ctx, *a)
            ctx.sample(c)


def warm(ctx, w):
    for nm in writers_names:
        if (writers()[nm][0] == "t") == (w == "t"):
            for k in (0, 3):
                one_good(ctx, nm, 4, k, "built")
    need(tuple(writers()) == writers_names, "harness", "writer list")


def replay(ctx, c):
    ctx.case(c, FN[c["f"]], ctx, *c["a"])
