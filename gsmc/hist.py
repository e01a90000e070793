"""Operation alphabet on the array container, with its plain-array reference semantics."""
import copy
import dataclasses
import pickle

import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import ATTRS, KS, Plain, fmt, gsdata, lay, npy, plain_of, realistic
from gsmc.explore import Op

T = (2e-5, 2e-5)


# --- reference conversions (float64, then float32) -------------------------------------------

def m_norm(p):
    ap = {}
    if p.labels[0] != "ply":
        p.scales = np.log(np.maximum(p.scales.astype(np.float64), np.float32(1e-9))).astype(np.float32)
        ap["scales"] = T
    if p.labels[1] != "ply":
        o = np.clip(p.opacities.astype(np.float64), np.float32(1e-4), np.float32(1 - 1e-4))
        p.opacities = refs.logit(o).astype(np.float32)
        ap["opacities"] = (1e-4, 1e-3)      # 1-o cancels in float32 near the upper clamp
    p.labels = ("ply", "ply", p.labels[2])
    return p, ap


def m_denorm(p):
    ap = {}
    if p.labels[0] == "ply" or p.labels[1] == "ply":
        q = p.quats.astype(np.float64)
        n = np.sqrt((q * q).sum(1, keepdims=True))
        p.quats = np.where(n < 1e-8, np.array([0, 0, 0, 1.0]), q / np.where(n == 0, 1, n)).astype(np.float32)
        ap["quats"] = T
    if p.labels[0] == "ply":
        with np.errstate(over="ignore"):
            p.scales = np.clip(np.exp(p.scales.astype(np.float64)), 1e-4, 100.0).astype(np.float32)
        ap["scales"] = T
    if p.labels[1] == "ply":
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        ap["opacities"] = T
    p.labels = ("linear", "linear", p.labels[2])
    return p, ap


def m_rgb(p):
    p.sh0 = (p.sh0.astype(np.float64) * refs.C0 + 0.5).astype(np.float32)
    p.labels = p.labels[:2] + ("rgb",)
    return p, {"sh0": T}


def m_sh(p):
    p.sh0 = ((p.sh0.astype(np.float64) - 0.5) / refs.C0).astype(np.float32)
    p.labels = p.labels[:2] + ("sh",)
    return p, {"sh0": T}


def m_ply(p):
    """What is stored on disk for this scene."""
    p, ap = m_norm(p)
    if p.labels[2] != "sh":
        p, ap2 = m_sh(p)
        ap = {**ap, **ap2}
    return p, ap


# normalise label spelling: data.labels_of gives 'linear'
def _lin(p):
    p.labels = tuple("linear" if x == "lin" else x for x in p.labels)
    return p


def fixlab(f):
    def g(p):
        r, ap = f(p)
        return (None if r is None else _lin(r)), ap
    return g


m_norm, m_denorm, m_rgb, m_sh, m_ply = [fixlab(f) for f in (m_norm, m_denorm, m_rgb, m_sh, m_ply)]


def exact(f):
    def g(p):
        r = f(p)
        return (p if r is None else r), {}
    return g


def nomask(p):
    p.masks = p.names = None
    return p


# --- masks ---------------------------------------------------------------------------------

PAT = {"a": lambda n: np.arange(n) % 2 == 0, "b": lambda n: np.arange(n) != 1}


def m_addmask(name):
    def f(p):
        m = PAT[name](len(p))
        names = p.names
        if p.masks is not None and names is None:
            names = [f"layer_{i}" for i in range(p.masks.shape[1])]
        if names is not None and name in names:
            return None, {}
        p.masks = m[:, None].copy() if p.masks is None else np.concatenate([p.masks, m[:, None]], 1)
        p.names = [name] if names is None else list(names) + [name]
        return p, {}
    return f


def m_rmmask(name):
    def f(p):
        if p.names is None or name not in p.names:
            return None, {}
        i = p.names.index(name)
        p.masks = np.delete(p.masks, i, axis=1)
        p.names = [x for x in p.names if x != name]
        if not p.names:
            nomask(p)
        return p, {}
    return f


def m_apply(mode):
    def f(p):
        if p.masks is None:
            return None, {}
        m = p.masks.all(1) if mode == "and" else p.masks.any(1)
        return p.take(m), {}
    return f


# --- concatenation ---------------------------------------------------------------------------

def other(k, labels, salt=9):
    p = realistic(2, k, salt)
    p.labels = labels
    return p


def cat(ps):
    return Plain(*[np.concatenate([getattr(p, a) for p in ps]) for a in ATTRS], labels=ps[0].labels)


def m_add(side, masked=False):
    def f(p):
        o = other(p.k, p.labels)
        if masked:
            o.masks = np.array([[True], [False]])
            o.names = ["a"]
        l, r = (p, o) if side == "l" else (o, p)
        q = cat([l, r])
        if l.masks is not None or r.masks is not None:
            lm, rm = l.masks, r.masks
            L = (lm if lm is not None else rm).shape[1]
            if lm is None:
                lm = np.zeros((len(l), L), bool)
            if rm is None:
                rm = np.zeros((len(r), L), bool)
            if lm.shape[1] == rm.shape[1]:
                q.masks = np.concatenate([lm, rm])
                nm = l.names if l.names is not None else r.names
                q.names = None if nm is None else list(nm)
        return q, {}
    return f


def labels_now(g):
    from gsmc.data import labels_of
    return labels_of(g)


def lib_other(g, cons, masked=False):
    k = 0 if g.shN is None else g.shN.shape[1]
    o = other(k, labels_now(g))
    if masked:
        o.masks = np.array([[True], [False]])
        o.names = ["a"]
    x = gsdata(o)
    x.copy_format_from(g)
    return x.consolidate() if cons else x


# --- in-place edits and replacements ----------------------------------------------------------

def _e(attr, f):
    """An in-place edit written once, applied to the library's array and to the plain array."""
    def lib(g, ctx):
        f(getattr(g, attr))
        return g

    def model(p):
        f(getattr(p, attr))
        return p, {}
    return lib, model


def _set(a, idx, v):
    a[idx] = v


def _r(attr, f):
    def lib(g, ctx):
        setattr(g, attr, f(npy(getattr(g, attr))))
        return g

    def model(p):
        setattr(p, attr, np.ascontiguousarray(f(getattr(p, attr))))
        return p, {}
    return lib, model


def _iadd(attr, v):
    def lib(g, ctx):
        exec(f"g.{attr} += v", {"g": g, "v": v})
        return g

    def model(p):
        x = getattr(p, attr)
        x += v
        return p, {}
    return lib, model


def reload_masks(r, q):
    """A freshly read scene carries no restriction: no masks, or all-true unnamed ones."""
    m = npy(r.masks)
    if m is None:
        return None, None
    need(m.shape[0] == len(q) and bool(m.all()), "reload:masks", "a freshly read scene hides Gaussians")
    return (m[:, None] if m.ndim == 1 else m).copy(), (None if r.mask_names is None else list(r.mask_names))


def save_reload(g, ctx):
    import gsply
    f = ctx.path("h.ply")
    gsply.plywrite(f, g)
    return gsply.plyread(f)


def packed_reload(g, ctx):
    import gsply
    return gsply.decompress_from_bytes(gsply.compress_to_bytes(g.copy()))   # mixed layouts: see C02/C03


def check_packed(got, q):
    from gsmc.packed import check_decoded
    check_decoded(got, q, "packed_reload")
    for a in ATTRS:
        setattr(q, a, getattr(got, a).copy())


def m_packed(p):
    p, _ = m_ply(p)
    nomask(p)
    return p, check_packed


def rebuild(g, ctx):
    import gsply
    return gsply.GSData(*g.unpack(), _format=g.format_state)


def from_dict(g, ctx):
    import gsply
    from gsply.gsdata import DataFormat as D
    lab = labels_now(g)
    return gsply.GSData.from_dict(g.to_dict(), format="ply" if lab[0] == "ply" else "linear",
                                  sh0_format=D.SH0_SH if lab[2] == "sh" else D.SH0_RGB)


def relabel(g, ctx):
    from gsply.gsdata import DataFormat as D
    return g.with_format(opacities=D.OPACITIES_LINEAR if labels_now(g)[1] == "ply" else D.OPACITIES_PLY)


def m_relabel(p):
    p.labels = (p.labels[0], "linear" if p.labels[1] == "ply" else "ply", p.labels[2])
    return p, {}


def m_replace(attr, f):
    def model(p):
        setattr(p, attr, np.ascontiguousarray(f(getattr(p, attr))))
        return p, {}
    return model


def m_replace2(p):
    p.shN, p.opacities = p.shN * np.float32(2), p.opacities + np.float32(1)
    return p, {}


def mkops():
    nz = lambda p: len(p) > 0
    nz2 = lambda p: len(p) > 1
    hk = lambda p: p.k > 0 and len(p) > 0
    ops = []

    def add(name, pair, ok=None, sync=None):
        ops.append(Op(name, pair[0], pair[1], ok, sync))
    # in-place edits
    add("edit:means", _e("means", lambda a: _set(a, 0, (9.0, -8.5, 7.25))), nz)
    add("edit:scales", _e("scales", lambda a: _set(a, (slice(None), 1), -2.5)), nz)
    add("edit:quats", _e("quats", lambda a: _set(a, -1, (0.5, -0.5, 0.5, 0.5))), nz)
    add("edit:opacities", _e("opacities", lambda a: _set(a, slice(None, None, 2), 0.75)), nz)
    add("edit:sh0", _e("sh0", lambda a: _set(a, (-1, 2), 0.875)), nz)
    add("edit:shN", _e("shN", lambda a: _set(a, (0, -1, 1), 0.625)), hk)
    add("iadd:opacities", _iadd("opacities", np.float32(0.5)), nz)
    add("iadd:shN", _iadd("shN", np.float32(0.25)), hk)
    # replacing an attribute array
    add("repl:means", _r("means", lambda a: a[::-1] * np.float32(1)), nz)
    add("repl:scales", _r("scales", lambda a: np.asfortranarray(a - np.float32(1))), nz)
    add("repl:quats", _r("quats", lambda a: -a), nz)
    add("repl:opacities", _r("opacities", lambda a: a * np.float32(0.5)), nz)
    add("repl:sh0", _r("sh0", lambda a: a[:, ::-1].copy()), nz)
    add("repl:shN", _r("shN", lambda a: a[:, ::-1].copy()), hk)
    # selection
    for nm, s in (("[1:]", slice(1, None)), ("[:-1]", slice(None, -1)), ("[::2]", slice(None, None, 2)),
                  ("[::-1]", slice(None, None, -1)), ("[:0]", slice(0, 0)), ("[:]", slice(None))):
        add("get" + nm, ((lambda s: lambda g, c: g[s])(s), (lambda s: lambda p: (p.take(s), {}))(s)))
    add("get[mask]", (lambda g, c: g[np.arange(len(g)) != 1], lambda p: (p.take(np.arange(len(p)) != 1), {})))
    add("get[boollist]", (lambda g, c: g[[i != 0 for i in range(len(g))]], lambda p: (p.take(np.arange(len(p)) != 0), {})), nz)
    add("get[-1,0,0]", (lambda g, c: g[[-1, 0, 0]], lambda p: (p.take(np.array([-1, 0, 0])), {})), nz)
    add("copy_slice[1:]", (lambda g, c: g.copy_slice(slice(1, None)), lambda p: (p.take(slice(1, None)), {})))
    add("copy_slice[-1]", (lambda g, c: g.copy_slice(-1), lambda p: (p.take(slice(len(p) - 1, None)), {})), nz)
    add("get_gaussian(0)", (lambda g, c: g.get_gaussian(0), lambda p: (p.take(slice(0, 1)), {})), nz)
    # representation
    add("copy", (lambda g, c: g.copy(), exact(lambda p: None)))
    add("consolidate", (lambda g, c: g.consolidate(), exact(lambda p: None)))
    add("make_contiguous", (lambda g, c: g.make_contiguous(), exact(lambda p: None)))
    add("make_contiguous_new", (lambda g, c: g.make_contiguous(inplace=False), exact(lambda p: None)))
    add("deepcopy", (lambda g, c: copy.deepcopy(g), exact(lambda p: None)))
    add("pickle", (lambda g, c: pickle.loads(pickle.dumps(g)), exact(lambda p: None)))
    add("replace:rev", (lambda g, c: dataclasses.replace(g, means=g.means[::-1]), m_replace("means", lambda a: a[::-1])))
    add("replace:shN", (lambda g, c: dataclasses.replace(g, shN=g.shN * np.float32(2), opacities=g.opacities + np.float32(1)), m_replace2), hk)
    # concatenation
    import gsply
    add("add(other)", (lambda g, c: g.add(lib_other(g, False)), m_add("l")))
    add("add(other_cons_masked)", (lambda g, c: g + lib_other(g, True, True), m_add("l", True)))
    add("other_cons+g", (lambda g, c: lib_other(g, True) + g, m_add("r")))
    add("concatenate(g,o,g)", (lambda g, c: gsply.GSData.concatenate([g, lib_other(g, True), g]),
                               lambda p: (cat([p, other(p.k, p.labels), p]), {})))
    add("sum", (lambda g, c: sum([g]), exact(lambda p: None)))
    # masks
    for nm in "ab":
        add(f"add_mask({nm})", ((lambda nm: lambda g, c: (g.add_mask_layer(nm, PAT[nm](len(g))), g)[1])(nm), m_addmask(nm)))
    add("remove_mask(a)", (lambda g, c: (g.remove_mask_layer("a"), g)[1], m_rmmask("a")))
    add("apply_and", (lambda g, c: g.apply_masks("and"), m_apply("and")))
    add("apply_or_inplace", (lambda g, c: g.apply_masks("or", inplace=True), m_apply("or")))
    # conversions
    add("normalize", (lambda g, c: g.normalize(), m_norm))
    add("normalize_new", (lambda g, c: g.normalize(inplace=False), m_norm))
    add("denormalize", (lambda g, c: g.denormalize(), m_denorm))
    add("denormalize_new", (lambda g, c: g.denormalize(inplace=False), m_denorm))
    add("to_rgb", (lambda g, c: g.to_rgb(), m_rgb), lambda p: p.labels[2] == "sh")
    add("to_rgb_new", (lambda g, c: g.to_rgb(inplace=False), m_rgb), lambda p: p.labels[2] == "sh")
    add("to_sh", (lambda g, c: g.to_sh(), m_sh), lambda p: p.labels[2] == "rgb")
    add("to_sh_new", (lambda g, c: g.to_sh(inplace=False), m_sh), lambda p: p.labels[2] == "rgb")
    add("relabel", (relabel, m_relabel))
    # leaving and coming back
    add("save_reload", (save_reload, m_ply), sync=reload_masks)
    add("packed_reload", (packed_reload, m_packed), nz, sync=reload_masks)
    add("tensor_roundtrip", (lambda g, c: gsply.GSTensor.from_gsdata(g, device="cpu").to_gsdata(), exact(lambda p: None)),
        )
    add("rebuild", (rebuild, lambda p: (nomask(p), {})))
    add("from_dict", (from_dict, lambda p: (nomask(p), {})), lambda p: p.labels[0] == p.labels[1])
    return ops
