"""Operation alphabet on the tensor container, with its plain-array reference semantics."""
import copy
import dataclasses
import pickle

import numpy as np

from gsmc import refs
from gsmc.data import ATTRS, gsdata, labels_of, npy
from gsmc.explore import Op
from gsmc.hist import (PAT, T, check_packed, exact, fixlab, m_add, m_addmask, m_apply, m_norm, m_packed, m_ply, m_relabel, m_replace, m_replace2, m_rgb,
                       m_rmmask, m_sh, nomask, other, reload_masks)


def _denorm(p):
    ap = {}
    if p.labels[0] == "ply":
        with np.errstate(over="ignore"):
            p.scales = np.exp(p.scales.astype(np.float64)).astype(np.float32)
        ap["scales"] = T
    if p.labels[1] == "ply":
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        ap["opacities"] = T
    p.labels = ("linear", "linear", p.labels[2])
    return p, ap


m_tdenorm = fixlab(_denorm)


def m_half(p):
    for a in ATTRS:
        with np.errstate(over="ignore"):
            setattr(p, a, getattr(p, a).astype(np.float16).astype(np.float32))
    return p, {}


def tensor(p, cons=False, shn_none=False, dtype=None, names=True):
    import gsply
    import torch
    from gsmc.data import fmt
    a = [torch.from_numpy(x.copy()) for x in p.arrays()]
    if dtype is not None:
        a = [x.to(dtype) for x in a]
    if p.k == 0 and shn_none:
        a[5] = None
    t = gsply.GSTensor(*a, _format=fmt(p.labels, p.k), masks=None if p.masks is None else torch.from_numpy(p.masks.copy()),
                       mask_names=None if p.names is None else list(p.names))
    return t.consolidate() if cons else t


def lib_tother(g, cons, masked=False):
    o = other(0 if g.shN is None else g.shN.shape[1], labels_of(g))
    if masked:
        o.masks = np.array([[True], [False]])
        o.names = ["a"]
    x = tensor(o)
    x.copy_format_from(g)
    return x.consolidate() if cons else x


def _e(attr, idx, v):
    import torch

    def lib(g, ctx):
        getattr(g, attr)[idx] = torch.tensor(v)
        return g

    def model(p):
        getattr(p, attr)[idx] = v
        return p, {}
    return lib, model


def _i(attr, v):
    def lib(g, ctx):
        exec(f"g.{attr} += v", {"g": g, "v": v})
        return g

    def model(p):
        x = getattr(p, attr)
        x += np.float32(v)
        return p, {}
    return lib, model


def _r(attr, f):
    import torch

    def lib(g, ctx):
        x = getattr(g, attr)
        setattr(g, attr, torch.from_numpy(np.ascontiguousarray(f(npy(x)))))
        return g

    def model(p):
        setattr(p, attr, np.ascontiguousarray(f(getattr(p, attr))))
        return p, {}
    return lib, model


def to_np(g, ctx, mask=None, **kw):
    import gsply
    return gsply.GSTensor.from_gsdata(g.to_gsdata(), device="cpu", mask=mask, **kw)


def rebuild(g, ctx):
    import gsply
    return gsply.GSTensor(*g.unpack(), _format=g.format_state)


def from_dict(g, ctx):
    import gsply
    from gsply.gsdata import DataFormat as D
    lab = labels_of(g)
    return gsply.GSTensor.from_dict(g.to_dict(), format="ply" if lab[0] == "ply" else "linear",
                                    sh0_format=D.SH0_SH if lab[2] == "sh" else D.SH0_RGB, device="cpu")


def from_arrays(g, ctx):
    import gsply
    from gsply.gsdata import DataFormat as D
    lab = labels_of(g)
    return gsply.GSTensor.from_arrays(*g.unpack(), format="ply" if lab[0] == "ply" else "linear",
                                      sh0_format=D.SH0_SH if lab[2] == "sh" else D.SH0_RGB, device="cpu")


def relabel(g, ctx):
    from gsply.gsdata import DataFormat as D
    return g.with_format(opacities=D.OPACITIES_LINEAR if labels_of(g)[1] == "ply" else D.OPACITIES_PLY)


def save_plain(g, ctx):
    import gsply
    f = ctx.path("t.ply")
    g.save(f, compressed=False)
    return gsply.GSTensor.load(f, device="cpu")


def save_packed(g, ctx):
    import gsply
    f = ctx.path("t.compressed.ply")
    g.save(f)
    return gsply.GSTensor.load(f, device="cpu")


def dbl(g, ctx):
    import torch
    return g.to(dtype=torch.float64).float()


def mktops():
    import gsply
    import torch
    nz = lambda p: len(p) > 0
    hk = lambda p: p.k > 0 and len(p) > 0
    ops = []

    def add(name, pair, ok=None, sync=None):
        ops.append(Op(name, pair[0], pair[1], ok, sync))
    add("edit:means", _e("means", 0, (9.0, -8.5, 7.25)), nz)
    add("edit:scales", _e("scales", (slice(None), 1), -2.5), nz)
    add("edit:quats", _e("quats", -1, (0.5, -0.5, 0.5, 0.5)), nz)
    add("edit:opacities", _e("opacities", slice(None, None, 2), 0.75), nz)
    add("edit:sh0", _e("sh0", (-1, 2), 0.875), nz)
    add("edit:shN", _e("shN", (0, -1, 1), 0.625), hk)
    add("iadd:opacities", _i("opacities", 0.5), nz)
    add("iadd:shN", _i("shN", 0.25), hk)
    add("repl:means", _r("means", lambda a: a[::-1] * np.float32(1)), nz)
    add("repl:scales", _r("scales", lambda a: a - np.float32(1)), nz)
    add("repl:quats", _r("quats", lambda a: -a), nz)
    add("repl:opacities", _r("opacities", lambda a: a * np.float32(0.5)), nz)
    add("repl:sh0", _r("sh0", lambda a: a[:, ::-1]), nz)
    add("repl:shN", _r("shN", lambda a: a[:, ::-1]), hk)
    for nm, s in (("[1:]", slice(1, None)), ("[:-1]", slice(None, -1)), ("[::2]", slice(None, None, 2)),
                  ("[:0]", slice(0, 0)), ("[:]", slice(None))):
        add("get" + nm, ((lambda s: lambda g, c: g[s])(s), (lambda s: lambda p: (p.take(s), {}))(s)))
    m1 = lambda n: np.arange(n) != 1
    add("get[tmask]", (lambda g, c: g[torch.from_numpy(m1(len(g)))], lambda p: (p.take(m1(len(p))), {})))
    add("get[npmask]", (lambda g, c: g[~m1(len(g))], lambda p: (p.take(~m1(len(p))), {})))
    add("get[boollist]", (lambda g, c: g[[i != 0 for i in range(len(g))]], lambda p: (p.take(np.arange(len(p)) != 0), {})), nz)
    add("get[-1,0,0]", (lambda g, c: g[[-1, 0, 0]], lambda p: (p.take(np.array([-1, 0, 0])), {})), nz)
    add("get[t long]", (lambda g, c: g[torch.arange(len(g) - 1, -1, -1)], lambda p: (p.take(slice(None, None, -1)), {})))
    add("get_gaussian(-1)", (lambda g, c: g.get_gaussian(-1), lambda p: (p.take(slice(len(p) - 1, None)), {})), nz)
    add("clone", (lambda g, c: g.clone(), exact(lambda p: None)))
    add("consolidate", (lambda g, c: g.consolidate(), exact(lambda p: None)))
    add("deepcopy", (lambda g, c: copy.deepcopy(g), exact(lambda p: None)))
    add("pickle", (lambda g, c: pickle.loads(pickle.dumps(g)), exact(lambda p: None)))
    add("replace:rev", (lambda g, c: dataclasses.replace(g, means=g.means.flip(0)), m_replace("means", lambda a: a[::-1])))
    add("replace:shN", (lambda g, c: dataclasses.replace(g, shN=g.shN * 2, opacities=g.opacities + 1), m_replace2), hk)
    add("double.float", (dbl, exact(lambda p: None)))
    add("half.float", (lambda g, c: g.half().float(), m_half), lambda p: all(bool((np.abs(a) < 6e4).all()) for a in p.arrays()))
    add("cpu", (lambda g, c: g.cpu(), exact(lambda p: None)))
    add("add(other)", (lambda g, c: g.add(lib_tother(g, False)), m_add("l")))
    add("add(other_cons_masked)", (lambda g, c: g + lib_tother(g, True, True), m_add("l", True)))
    add("other_cons+g", (lambda g, c: lib_tother(g, True) + g, m_add("r")))
    add("sum", (lambda g, c: sum([g]), exact(lambda p: None)))
    for nm in "ab":
        add(f"add_mask({nm})", ((lambda nm: lambda g, c: (g.add_mask_layer(nm, torch.from_numpy(PAT[nm](len(g)))), g)[1])(nm), m_addmask(nm)))
    add("remove_mask(a)", (lambda g, c: (g.remove_mask_layer("a"), g)[1], m_rmmask("a")))
    add("apply_and", (lambda g, c: g.apply_masks("and"), m_apply("and")))
    add("apply_or_inplace", (lambda g, c: g.apply_masks("or", inplace=True), m_apply("or")))
    add("normalize", (lambda g, c: g.normalize(), m_norm))
    add("normalize_new", (lambda g, c: g.normalize(inplace=False), m_norm))
    add("denormalize", (lambda g, c: g.denormalize(), m_tdenorm))
    add("denormalize_new", (lambda g, c: g.denormalize(inplace=False), m_tdenorm))
    add("to_rgb", (lambda g, c: g.to_rgb(), m_rgb), lambda p: p.labels[2] == "sh")
    add("to_rgb_new", (lambda g, c: g.to_rgb(inplace=False), m_rgb), lambda p: p.labels[2] == "sh")
    add("to_sh", (lambda g, c: g.to_sh(), m_sh), lambda p: p.labels[2] == "rgb")
    add("to_sh_new", (lambda g, c: g.to_sh(inplace=False), m_sh), lambda p: p.labels[2] == "rgb")
    add("to_ply_tensor", (lambda g, c: g.to_ply_tensor(), m_norm))
    add("to_ply_data", (lambda g, c: gsply.GSTensor.from_gsdata(g.to_ply_data(), device="cpu"), m_norm))
    add("relabel", (relabel, m_relabel))
    add("gsdata_roundtrip", (lambda g, c: to_np(g, c), exact(lambda p: None)))
    add("gsdata_cons_mask", (lambda g, c: gsply.GSTensor.from_gsdata(g.to_gsdata().consolidate(), device="cpu", mask=m1(len(g))),
                             lambda p: (p.take(m1(len(p))), {})))
    add("gsdata_double", (lambda g, c: to_np(g, c, dtype=torch.float64).float(), exact(lambda p: None)))
    add("rebuild", (rebuild, lambda p: (nomask(p), {})))
    add("from_dict", (from_dict, lambda p: (nomask(p), {})), lambda p: p.labels[0] == p.labels[1])
    add("from_arrays", (from_arrays, lambda p: (nomask(p), {})), lambda p: p.labels[0] == p.labels[1])
    add("save_reload", (save_plain, m_ply), sync=reload_masks)
    add("packed_reload", (save_packed, m_packed), nz, sync=reload_masks)
    return ops
