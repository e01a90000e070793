"""Construction routes: every way a user obtains a scene with given contents."""
import numpy as np

from gsmc import refs
from gsmc.data import ATTRS, Plain, fmt, gsdata, lay, unique


def pconcat(ps):
    return Plain(*[np.concatenate([getattr(p, a) for p in ps]) for a in ATTRS], labels=ps[0].labels)


def pad(p, before, after, salt=5):
    """p with other Gaussians around it, and the slice that selects p."""
    parts = []
    if before:
        parts.append(unique(before, p.k, salt))
    parts.append(p)
    if after:
        parts.append(unique(after, p.k, salt + 1))
    b = pconcat(parts)
    b.labels = p.labels
    return b, slice(before, before + len(p))


def interleave(p, salt=5):
    n = len(p)
    q = unique(n, p.k, salt)
    out = []
    for a in ATTRS:
        x = getattr(p, a)
        b = np.empty((2 * n,) + x.shape[1:], np.float32)
        b[0::2] = x
        b[1::2] = getattr(q, a)
        out.append(b)
    return Plain(*out, labels=p.labels)


def _set_labels(g, p):
    return g


ROUTES = ("ctor", "none", "arrays", "dict", "cons", "slice", "slice_cons", "step_cons", "mask", "mask_cons", "fancy_cons",
          "file", "file_slice", "copy", "copy_cons", "contig", "concat", "concat_cons", "add", "add_cons", "tensor",
          "tensor_cons", "half_open")
# routes whose results hold an interleaved base array on the unchanged tree are not special-cased anywhere.
MASKLESS = ROUTES


def build(route, p, ctx, layout="C"):
    """A GSData holding exactly p (labels included). Masks are not set, except by 'file' routes (see clear_masks)."""
    import gsply
    G = gsply.GSData
    ply = p.labels == ("ply", "ply", "sh")
    if route == "ctor":
        return gsdata(p, layout)
    if route == "none":
        return gsdata(p, layout, shn_none=True)
    if route in ("arrays", "dict"):
        from gsply.gsdata import DataFormat as D
        if p.labels[0] != p.labels[1]:
            return gsdata(p, layout)
        a = [lay(x, layout) for x in p.arrays()]
        f = "ply" if p.labels[0] == "ply" else "linear"
        s0 = D.SH0_SH if p.labels[2] == "sh" else D.SH0_RGB
        if route == "arrays":
            return G.from_arrays(*a, format=f, sh0_format=s0)
        return G.from_dict(dict(zip(ATTRS, a)), format=f, sh0_format=s0)
    if route == "cons":
        return gsdata(p, layout).consolidate()
    if route in ("slice", "slice_cons"):
        b, s = pad(p, 2, 3)
        g = gsdata(b, layout)
        return (g.consolidate() if route.endswith("cons") else g)[s]
    if route == "step_cons":
        return gsdata(interleave(p), layout).consolidate()[::2]
    if route in ("mask", "mask_cons"):
        b, s = pad(p, 1, 2)
        m = np.zeros(len(b), bool)
        m[s] = True
        g = gsdata(b, layout)
        return (g.consolidate() if route.endswith("cons") else g)[m]
    if route == "fancy_cons":
        r = p.take(np.arange(len(p))[::-1])
        return gsdata(r, layout).consolidate()[np.arange(len(p), dtype=np.int64)[::-1]]
    if route in ("file", "file_slice"):
        if not ply:
            return gsdata(p, layout).consolidate()
        b, s = (p, slice(None)) if route == "file" else pad(p, 2, 1)
        f = ctx.path("route.ply")
        with open(f, "wb") as h:
            h.write(refs.std_bytes(b))
        g = gsply.plyread(f)
        g.masks = None
        g.mask_names = None
        return g if route == "file" else g[s]
    if route == "copy":
        return gsdata(p, layout).copy()
    if route == "copy_cons":
        return gsdata(p, layout).consolidate().copy()
    if route == "contig":
        return build("file", p, ctx, layout).make_contiguous(inplace=False)
    if route in ("concat", "concat_cons", "add", "add_cons"):
        n = len(p)
        cut = [0, n // 3, n - n // 3, n] if route.startswith("concat") else [0, n // 2, n]
        parts = [gsdata(p.take(slice(a, b)), layout) for a, b in zip(cut, cut[1:])]
        if route.endswith("cons"):
            parts = [x.consolidate() for x in parts]
        if route.startswith("concat"):
            return G.concatenate(parts)
        return parts[0] + parts[1]
    if route in ("tensor", "tensor_cons"):
        g = gsdata(p, layout if layout not in ("ro", "be", "rev") else "C")
        if route.endswith("cons"):
            g = g.consolidate()
        return gsply.GSTensor.from_gsdata(g, device="cpu").to_gsdata()
    if route == "half_open":   # consolidated, then one attribute replaced by an equal-valued other array
        g = gsdata(p, layout).consolidate()
        g.scales = lay(p.scales, layout if layout != "f64" else "C")
        return g
    raise KeyError(route)


# Scenes whose arrays came back from tensors of another precision: the base array is not single precision either.
PRECISIONS = ("half", "double")
PFORMS = ("plain", "cons", "cons_slice", "cons_step", "cons_mask", "cons_copy", "cons_concat", "cons_add", "cons_contig",
          "cons_pickle", "mixed_concat", "mixed_add", "recons", "copy_slice")


def build_precision(prec, form, p):
    """-> (scene, its contents in single precision)."""
    import copy
    import pickle
    import gsply
    np_t = {"half": np.float16, "double": np.float64}[prec]

    def mk(q):
        t = gsply.GSTensor.from_gsdata(gsdata(q), device="cpu")
        if form != "plain":
            t = t.consolidate()
        return getattr(t, prec)().to_gsdata()
    w = Plain(*[a.astype(np_t).astype(np.float32) for a in p.arrays()], labels=p.labels)
    n = len(p)
    if form in ("plain", "cons"):
        return mk(p), w
    if form == "cons_slice":
        b, s = pad(p, 2, 1)
        return mk(b)[s], w
    if form == "cons_step":
        return mk(interleave(p))[::2], w
    if form == "cons_mask":
        b, s = pad(p, 1, 2)
        m = np.zeros(len(b), bool)
        m[s] = True
        return mk(b)[m], w
    if form == "cons_copy":
        return mk(p).copy(), w
    if form == "copy_slice":
        b, s = pad(p, 3, 0)
        return mk(b).copy()[s], w
    if form == "cons_concat":
        c = [0, n // 3, n - n // 3, n]
        return gsply.GSData.concatenate([mk(p.take(slice(a, b))) for a, b in zip(c, c[1:])]), w
    if form == "cons_add":
        return mk(p.take(slice(0, n // 2))) + mk(p.take(slice(n // 2, n))), w
    if form in ("mixed_concat", "mixed_add"):   # the second part stays single precision
        h = n // 2
        parts = [mk(p.take(slice(0, h))), gsdata(p.take(slice(h, n))).consolidate()]
        for a in ATTRS:
            getattr(w, a)[h:] = getattr(p, a)[h:]
        return (gsply.GSData.concatenate(parts) if form == "mixed_concat" else parts[0] + parts[1]), w
    if form == "cons_contig":
        return mk(p).make_contiguous(inplace=False), w
    if form == "cons_pickle":
        return pickle.loads(pickle.dumps(copy.deepcopy(mk(p)))), w
    if form == "recons":
        return mk(p).make_contiguous(inplace=False).consolidate(), w
    raise KeyError(form)
