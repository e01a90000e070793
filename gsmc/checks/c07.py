"""C07: no operation changes data it was not asked to change; copies are independent."""
import copy
import itertools
import os
import pickle

import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.explore import fingerprint
from gsmc.data import ATTRS, KS, LAYOUTS, fmt, gsdata, labels_of, lay, npy, plain_of, realistic, same, snapshot
from gsmc.routes import ROUTES, build
from gsmc.thist import lib_tother, tensor
from gsmc.hist import lib_other

LEVEL = "exploration"
RULE = "distinct = (container, construction route, SH degree, mask kind, operation, mutation sequence, mutated side)"
BOUND = {
    "quick": "source unchanged: ~53 operations x 31 construction routes x 4 SH degrees x 5 mask kinds; independence: every copy-returning "
             "operation x every mutation (length 1; length 2 on 2 routes) x both sides; both also on scenes of 10,007 and 100,003 Gaussians; raw-array entry points x 8 layouts x units",
    "thorough": "mutation sequences of length 2 on every route and degree, of length 3 over 9 mutations on 2 routes",
}
ASSUMPTIONS = ["results documented as views (slices, CPU zero-copy conversions) share element memory by design: for those only "
               "structural mutations (mask layers, labels, replaced attributes) are required to be invisible in the source",
               "CPU device only"]
WARM = ["np", "t", "arr"]
TROUTES = ("ctor", "none", "cons", "from_np", "from_np_cons", "slice_cons", "mask_cons", "packed")
MASKS = ("named2", "none", "1d", "1d_named", "unnamed2")


def withmask(p, kind):
    n = len(p)
    c = np.stack([np.arange(n) % 2 == 0, np.arange(n) % 3 != 1], 1)
    if kind == "none":
        return None, None
    if kind.startswith("1d"):
        return c[:, 0].copy(), ["one"] if kind == "1d_named" else None
    return c, (["x", "y"] if kind == "named2" else None)


def make(ctx, cont, route, k, mk, lab, n=5):
    """A fresh scene of n Gaussians in the given units."""
    import gsply
    p = realistic(n, k, 1)
    if lab != "ply":
        p.scales = np.exp(p.scales).astype(np.float32)
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        p.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
        p.labels = ("linear", "linear", "rgb")
    m, names = withmask(p, mk)
    if cont == "np":
        if route == "packed":
            g = gsply.decompress_from_bytes(gsply.compress_to_bytes(gsdata(p)))
        else:
            g = build(route, p, ctx)
        g.masks = m
        g.mask_names = None if names is None else list(names)
        return g
    import torch
    if route in ("from_np", "from_np_cons"):
        g = gsply.GSTensor.from_gsdata(gsdata(p) if route == "from_np" else build("cons", p, ctx), device="cpu")
    elif route == "slice_cons":
        g = tensor(p.take(np.r_[0, 0:n, n - 1]), True)[1:n + 1]
    elif route == "mask_cons":
        g = tensor(p.take(np.r_[0, 0:n, n - 1]), True)[torch.from_numpy(np.r_[False, np.ones(n, bool), False])]
    elif route == "packed":
        f = ctx.path("c7.compressed.ply")
        tensor(p).save(f)
        g = gsply.GSTensor.load(f, device="cpu")
    else:
        g = tensor(p, route == "cons", route == "none")
    g.masks = None if m is None else torch.from_numpy(m)
    g.mask_names = None if names is None else list(names)
    return g


# --- operations -----------------------------------------------------------------------------------

def edit_state(g):
    """The format state handed out is a copy: editing it must not reach the scene."""
    a, b = g.format_state, g.format_state
    a["scales"] = None
    b.clear()


def fresh(g, r):
    """A scene that is documented as new unless it is the given one itself."""
    return r if r is not g else g.clone() if hasattr(g, "clone") else g.copy()


def relabelled(c, g):
    """Another scene with the same values that took over the labels of g."""
    p = plain_of(g)
    if hasattr(g.means, "detach"):
        x = tensor(p)
    else:
        x = gsdata(p)
    x.copy_format_from(g)
    return x


def npops():
    """name -> (kind, fn). kind: 'copy' independent result, 'view' shares elements, 'none' nothing to compare."""
    import gsply
    from gsply.writer import write_uncompressed
    G, T = gsply.GSData, gsply.GSTensor
    b = lambda g: np.arange(len(g)) != 1
    o = {
        "copy": ("copy", lambda c, g: g.copy()),
        "copy_slice[1:]": ("copy", lambda c, g: g.copy_slice(slice(1, None))),
        "copy_slice[::2]": ("copy", lambda c, g: g.copy_slice(slice(None, None, 2))),
        "copy_slice[:]": ("copy", lambda c, g: g.copy_slice(slice(None))),
        "copy_slice[2]": ("copy", lambda c, g: g.copy_slice(2)),
        "copy_slice[list]": ("copy", lambda c, g: g.copy_slice([0, 1, 2])),
        "copy_slice[mask]": ("copy", lambda c, g: g.copy_slice(b(g))),
        "g[1:].copy()": ("copy", lambda c, g: g[1:].copy()),
        "get[mask]": ("copy", lambda c, g: g[b(g)]),
        "get[allmask]": ("copy", lambda c, g: g[np.ones(len(g), bool)]),
        "get[list]": ("copy", lambda c, g: g[[0, 1, 2, 3, 4]]),
        "get[array]": ("copy", lambda c, g: g[np.arange(len(g))]),
        "get[boollist]": ("copy", lambda c, g: g[[True] * len(g)]),
        "normalize_new": ("copy", lambda c, g: g.normalize(inplace=False)),
        "denormalize_new": ("copy", lambda c, g: g.denormalize(inplace=False)),
        "to_rgb_new": ("copy", lambda c, g: g.to_rgb(inplace=False)),
        "to_sh_new": ("copy", lambda c, g: g.to_sh(inplace=False)),
        "make_contiguous_new": ("copy", lambda c, g: g.make_contiguous(inplace=False)),
        "with_format": ("copy", lambda c, g: g.with_format(opacities=g.format_state["opacities"])),
        "copy_format_from": ("data", relabelled),
        "deepcopy": ("copy", lambda c, g: copy.deepcopy(g)),
        "pickle": ("copy", lambda c, g: pickle.loads(pickle.dumps(g))),
        "apply_and": ("copy", lambda c, g: g.apply_masks("and")),
        "apply_or": ("copy", lambda c, g: g.apply_masks("or")),
        "activate_new": ("copy", lambda c, g: gsply.apply_pre_activations(g, inplace=False)),
        "deactivate_new": ("copy", lambda c, g: gsply.apply_pre_deactivations(g, inplace=False)),
        "add": ("copy", lambda c, g: g.add(lib_other(g, False))),
        "add_cons": ("copy", lambda c, g: g + lib_other(g, True, True)),
        "radd": ("copy", lambda c, g: lib_other(g, True) + g),
        "add_empty": ("copy", lambda c, g: g + g[:0]),
        "empty_add": ("copy", lambda c, g: g[:0] + g),
        "add_self": ("copy", lambda c, g: g + g),
        "concatenate": ("copy", lambda c, g: G.concatenate([g, lib_other(g, False), g])),
        "concatenate_cons": ("copy", lambda c, g: G.concatenate([lib_other(g, True), g])),
        "consolidate": ("view", lambda c, g: g.consolidate()),
        "consolidate_new": ("copy", lambda c, g: fresh(g, g.consolidate())),
        "get[1:]": ("view", lambda c, g: g[1:]),
        "get[:]": ("view", lambda c, g: g[:]),
        "get[::-1]": ("view", lambda c, g: g[::-1]),
        "get_gaussian": ("view", lambda c, g: g.get_gaussian(0)),
        "tensor": ("view", lambda c, g: T.from_gsdata(g, device="cpu")),
        "tensor_mask": ("copy", lambda c, g: T.from_gsdata(g, device="cpu", mask=b(g))),
        "tensor_f64": ("data", lambda c, g: T.from_gsdata(g, device="cpu", dtype=__import__("torch").float64)),
        "get_mask_layer": ("none", lambda c, g: g.get_mask_layer(g.mask_names[0]) if g.mask_names else None),
        "combine_and": ("none", lambda c, g: g.combine_masks("and") if g.masks is not None else None),
        "combine_or": ("none", lambda c, g: g.combine_masks("or") if g.masks is not None else None),
        "combine_layers": ("none", lambda c, g: g.combine_masks("or", [g.mask_names[-1]]) if g.mask_names else None),
        "get[int]": ("none", lambda c, g: (g[0], g[-1])),
        "iterate": ("none", lambda c, g: list(g)),
        "unpack": ("none", lambda c, g: (g.unpack(), g.unpack(False))),
        "to_dict": ("none", lambda c, g: g.to_dict()),
        "format_state": ("none", lambda c, g: edit_state(g)),
        "repr": ("none", lambda c, g: (repr(g), len(g), g.is_contiguous(), g.format_state, g.get_sh_degree())),
        "plywrite": ("none", lambda c, g: gsply.plywrite(c.path("o.ply"), g)),
        "plywrite_packed": ("none", lambda c, g: gsply.plywrite(c.path("o.ply"), g, compressed=True)),
        "save": ("none", lambda c, g: g.save(c.path("o.ply"))),
        "write_uncompressed": ("none", lambda c, g: write_uncompressed(c.path("o.ply"), g, validate=False)),
        "bytes": ("none", lambda c, g: gsply.compress_to_bytes(g)),
        "arrays": ("none", lambda c, g: gsply.compress_to_arrays(g)),
        "failed": ("none", failing),
    }
    return o


def failing(c, g):
    """Rejected requests leave everything as it was."""
    import gsply
    isn = isinstance(g, gsply.GSData)
    m = np.ones(len(g) + 1, bool)
    if not isn:
        import torch
        m = torch.from_numpy(m)
    bad = [lambda: g[m], lambda: g[len(g)], lambda: g.get_gaussian(len(g) + 94), lambda: g.get_mask_layer("nope"),
           lambda: g.remove_mask_layer("nope"), lambda: g.combine_masks("and", ["nope"]),
           lambda: g.add_mask_layer("q", m), lambda: gsply.plywrite(c.path("no/such/dir.ply"), g)]
    if g.mask_names:
        bad.append(lambda: g.add_mask_layer(g.mask_names[0], m[1:]))
    for f in bad:
        try:
            f()
        except (ValueError, IndexError, OSError, KeyError):
            continue
        need(False, "failed:accepted", "an invalid request was accepted")


def tops():
    import gsply
    import torch
    T = gsply.GSTensor
    b = lambda g: torch.arange(len(g)) != 1
    return {
        "clone": ("copy", lambda c, g: g.clone()),
        "g[1:].clone()": ("copy", lambda c, g: g[1:].clone()),
        "get[mask]": ("copy", lambda c, g: g[b(g)]),
        "get[allmask]": ("copy", lambda c, g: g[torch.ones(len(g), dtype=torch.bool)]),
        "get[npmask]": ("copy", lambda c, g: g[b(g).numpy()]),
        "get[list]": ("copy", lambda c, g: g[[0, 1, 2, 3, 4]]),
        "get[tensor]": ("copy", lambda c, g: g[torch.arange(len(g))]),
        "normalize_new": ("copy", lambda c, g: g.normalize(inplace=False)),
        "denormalize_new": ("copy", lambda c, g: g.denormalize(inplace=False)),
        "to_rgb_new": ("copy", lambda c, g: g.to_rgb(inplace=False)),
        "to_sh_new": ("copy", lambda c, g: g.to_sh(inplace=False)),
        "to_ply_tensor": ("copy", lambda c, g: g.to_ply_tensor()),
        "to_ply_data": ("copy", lambda c, g: g.to_ply_data()),
        "with_format": ("copy", lambda c, g: g.with_format(opacities=g.format_state["opacities"])),
        "copy_format_from": ("data", relabelled),
        "deepcopy": ("copy", lambda c, g: copy.deepcopy(g)),
        "pickle": ("copy", lambda c, g: pickle.loads(pickle.dumps(g))),
        "apply_and": ("copy", lambda c, g: g.apply_masks("and")),
        "apply_or": ("copy", lambda c, g: g.apply_masks("or")),
        "add": ("copy", lambda c, g: g.add(lib_tother(g, False))),
        "add_cons": ("copy", lambda c, g: g + lib_tother(g, True, True)),
        "radd": ("copy", lambda c, g: lib_tother(g, True) + g),
        "add_empty": ("copy", lambda c, g: g + g[:0]),
        "empty_add": ("copy", lambda c, g: g[:0] + g),
        "add_self": ("copy", lambda c, g: g + g),
        "half": ("data", lambda c, g: g.half()),
        "double": ("data", lambda c, g: g.double()),
        "to_f64": ("data", lambda c, g: g.to(dtype=torch.float64)),
        "consolidate": ("view", lambda c, g: g.consolidate()),
        "consolidate_new": ("copy", lambda c, g: fresh(g, g.consolidate())),
        "get[1:]": ("view", lambda c, g: g[1:]),
        "get[::2]": ("view", lambda c, g: g[::2]),
        "get_gaussian": ("view", lambda c, g: g.get_gaussian(0)),
        "to_gsdata": ("view", lambda c, g: g.to_gsdata()),
        "get_mask_layer": ("none", lambda c, g: g.get_mask_layer(g.mask_names[0]) if g.mask_names else None),
        "combine_and": ("none", lambda c, g: g.combine_masks("and") if g.masks is not None else None),
        "combine_layers": ("none", lambda c, g: g.combine_masks("or", [g.mask_names[-1]]) if g.mask_names else None),
        "get[int]": ("none", lambda c, g: (g[0], g[-1])),
        "iterate": ("none", lambda c, g: [g[i] for i in range(len(g))]),
        "unpack": ("none", lambda c, g: (g.unpack(), g.unpack(False), g.to_dict())),
        "format_state": ("none", lambda c, g: edit_state(g)),
        "repr": ("none", lambda c, g: (repr(g), len(g), g.format_state, g.get_sh_degree())),
        "save": ("none", lambda c, g: g.save(c.path("o.ply"), compressed=False)),
        "save_packed": ("none", lambda c, g: g.save(c.path("o.compressed.ply"))),
        "plywrite_gpu": ("none", lambda c, g: gsply.plywrite_gpu(c.path("o.compressed.ply"), g)),
        "plywrite": ("none", lambda c, g: gsply.plywrite(c.path("o.ply"), g)),
        "plywrite_packed": ("none", lambda c, g: gsply.plywrite(c.path("o.ply"), g, compressed=True)),
        "failed": ("none", failing),
    }


# --- mutations ------------------------------------------------------------------------------------

def _set(g, a, idx, v):
    x = getattr(g, a)
    if x is None or not len(g) or (a == "shN" and not x.shape[1]):
        return False
    x[idx] = v if not hasattr(x, "detach") else __import__("torch").tensor(v, dtype=x.dtype)
    return True


def _repl(g, a):
    x = getattr(g, a)
    if x is None or not len(g):
        return False
    setattr(g, a, x * 2 + 1)
    return True


def _masks(g):
    if g.masks is None or not len(g):
        return False
    g.masks[:1] = ~g.masks[:1]
    return True


def _names(g):
    if not g.mask_names:
        return False
    g.mask_names[0] = "renamed"
    return True


def _newmask(g, name="fresh"):
    m = np.arange(len(g)) % 2 == 1
    if hasattr(g.means, "detach"):
        m = __import__("torch").from_numpy(m)
    g.add_mask_layer(name, m)
    return True


def _fmt(g):
    import gsply
    d = realistic(1, 0 if g.shN is None else g.shN.shape[1])
    d.labels = tuple({"ply": "linear", "linear": "ply", "sh": "rgb", "rgb": "sh"}[x] for x in labels_of(g))
    g.copy_format_from(gsdata(d))
    return True


def _act(name):
    def f(g):
        import gsply
        if not isinstance(g, gsply.GSData):
            return False
        getattr(gsply, name)(g, inplace=True)
        return True
    return f


def mutations():
    m = {
        "means": lambda g: _set(g, "means", 0, (3.5, 4.5, 5.5)),
        "scales": lambda g: _set(g, "scales", (slice(None), 1), 0.125),
        "quats": lambda g: _set(g, "quats", -1, (0.5, 0.5, -0.5, 0.5)),
        "opacities": lambda g: _set(g, "opacities", slice(None, None, 2), 0.875),
        "sh0": lambda g: _set(g, "sh0", (-1, 2), 0.3125),
        "shN": lambda g: _set(g, "shN", (0, -1, 1), 0.6875),
        "masks": _masks, "names": _names,
    }
    data = set(m)
    s = {
        "add_layer": _newmask,
        "remove_layer": lambda g: bool(g.mask_names) and (g.remove_mask_layer(g.mask_names[0]), True)[1],
        "format": _fmt,
        "repl_scales": lambda g: _repl(g, "scales"), "repl_shN": lambda g: _repl(g, "shN"), "repl_means": lambda g: _repl(g, "means"),
        "apply_inplace": lambda g: g.masks is not None and (g.apply_masks("and", inplace=True), True)[1],
        "drop_masks": lambda g: (setattr(g, "masks", None), setattr(g, "mask_names", None), True)[2],
    }
    c = {
        "normalize": lambda g: (g.normalize(), True)[1], "denormalize": lambda g: (g.denormalize(), True)[1],
        "to_rgb": lambda g: (g.to_rgb(), True)[1], "to_sh": lambda g: (g.to_sh(), True)[1],
        "make_contiguous": lambda g: hasattr(g, "make_contiguous") and (g.make_contiguous(), True)[1],
        "activate": _act("apply_pre_activations"), "deactivate": _act("apply_pre_deactivations"),
    }
    return {**m, **s, **c}, data | set(c), set(s)


def unchanged(ctx, before, x, rebuild):
    """x still is what it was. An identical fingerprint (every array, buffer, label it holds) settles it; otherwise everything
    observable is compared with that of a freshly rebuilt, untouched twin."""
    return fingerprint(x) == before or deep(ctx, x) == deep(ctx, rebuild())


def deep(ctx, g):
    """Everything observable of a scene, including through what it would save, slice and copy to."""
    import gsply
    if str(getattr(g.means, "dtype", "")).endswith("float16"):
        return snapshot(g), snapshot(g[0:])
    f = ctx.path("deep.ply")
    if hasattr(g, "make_contiguous"):
        gsply.plywrite(f, g)
        c = g.copy()
    else:
        g.save(f, compressed=False)
        c = g.clone()
    with open(f, "rb") as h:
        raw = h.read()
    return snapshot(g), snapshot(c), snapshot(g[0:]), raw


def operations(cont):
    return npops() if cont == "np" else tops()


def source(ctx, c):
    """Part A: after the operation (and dropping its result) the source is what it was."""
    ops = operations(c["cont"])
    for name in c["ops"]:
        kind, fn = ops[name]
        g = make(ctx, c["cont"], c["route"], c["k"], c["masks"], c["lab"], c.get("n", 5))
        if name.startswith("apply") and g.masks is None or name == "iterate" and len(g) > 9:
            continue
        ctx.beat()
        ctx.evaluations += 1
        before = fingerprint(g)
        r = fn(ctx, g)
        need(unchanged(ctx, before, g, lambda: make(ctx, c["cont"], c["route"], c["k"], c["masks"], c["lab"], c.get("n", 5))), f"source-changed:{c['cont']}:{name}", f"{name} changed its source scene")
        if name == "iterate":
            p = plain_of(g)
            need(len(r) == len(p), "iterate:len")
        ctx.saw("src", c["cont"], c["route"], c["k"], c["masks"], c["lab"], name)


def independent(ctx, c):
    """Part B: mutating one of (source, result) never shows in the other."""
    ops = operations(c["cont"])
    muts, data, struct = mutations()
    kind, fn = ops[c["op"]]
    allowed = set(muts) if kind == "copy" else struct if kind == "view" else (set(muts) - {"masks"})
    for seq in c["seqs"]:
        if not set(seq) <= allowed:
            continue
        for side in ("source", "result"):
            g = make(ctx, c["cont"], c["route"], c["k"], c["masks"], c["lab"], c.get("n", 5))
            r = fn(ctx, g)
            if r is g:
                need(kind == "view", f"same-object:{c['op']}", "a copy was expected, the source itself was returned")
                return
            ctx.beat()
            ctx.evaluations += 1
            x, y = (g, r) if side == "source" else (r, g)
            before = fingerprint(y)
            done = True
            for i, mname in enumerate(seq):
                if i and mname == "add_layer":
                    done = _newmask(x, f"fresh{i}") and done
                else:
                    done = muts[mname](x) and done
            if not done:
                continue

            def twin():
                g2 = make(ctx, c["cont"], c["route"], c["k"], c["masks"], c["lab"], c.get("n", 5))
                r2 = fn(ctx, g2)
                return r2 if side == "source" else g2
            need(unchanged(ctx, before, y, twin), f"not-independent:{c['cont']}:{c['op']}:{'+'.join(seq)}:{side}",
                 f"{c['op']} of a scene built by '{c['route']}': applying {seq} to the {side} changed the other one")
            ctx.saw("ind", c["cont"], c["route"], c["k"], c["masks"], c["op"], seq, side)


def arrays(ctx, c):
    """Part C: the caller's own arrays, dictionaries, masks and buffers."""
    import gsply
    from gsply.writer import write_compressed
    p = realistic(5, c["k"], 2)
    if c["lab"] != "ply":
        p.scales = np.exp(p.scales).astype(np.float32)
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
    a = [lay(x, c["layout"]) for x in p.arrays()]
    if c["flat"]:
        a[5] = lay(p.shN.transpose(0, 2, 1).reshape(5, -1), c["layout"])
    keep = [np.array(x, copy=True) for x in a]

    def ok(what):
        for n, x, y in zip(ATTRS, a, keep):
            need(x.dtype == y.dtype and x.shape == y.shape and bool(np.array_equal(x, y)), f"caller-array-changed:{what}:{n}",
                 f"{what} changed the caller's {n} array")
        ctx.evaluations += 1
        ctx.beat()
    G = gsply.GSData
    eps = {
        "plywrite": lambda: gsply.plywrite(ctx.path("a.ply"), *a),
        "plywrite_packed": lambda: gsply.plywrite(ctx.path("a.ply"), *a, compressed=True),
        "write_compressed": lambda: write_compressed(ctx.path("a.ply"), *a),
        "bytes": lambda: gsply.compress_to_bytes(*a),
        "arrays": lambda: gsply.compress_to_arrays(*a),
    }
    if not c["flat"] and c["layout"] != "be":      # unit conversions do not support foreign byte order (they raise)
        eps["GSData"] = lambda: G(*a).copy().normalize()
        eps["from_arrays"] = lambda: G.from_arrays(*a).denormalize(inplace=False)
        eps["consolidate"] = lambda: (lambda g: (_set(g, "means", 0, (1, 2, 3)), _set(g, "shN", (0, 0, 0), 9), g.normalize(), g.to_rgb()))(
            G.from_arrays(*a).consolidate())
        eps["save"] = lambda: G.from_arrays(*a, format="linear").save(ctx.path("b.ply"))
        d = dict(zip(ATTRS, a))
        eps["from_dict"] = lambda: (G.from_dict(d).copy().to_rgb(), need(list(d) == list(ATTRS) and all(d[x] is y for x, y in zip(ATTRS, a)),
                                                                        "caller-dict-changed", "from_dict changed the dictionary"))
        if c["layout"] in ("C", "F", "step", "cols"):
            import torch
            eps["GSTensor.from_gsdata"] = lambda: gsply.GSTensor.from_gsdata(G.from_arrays(*a), device="cpu").clone().normalize()
    for n, f in eps.items():
        f()
        ok(n)
    ctx.saw("arr", c["layout"], c["k"], c["lab"], c["flat"])


def buffers(ctx, c):
    """Loaded scenes own their values: later changes to the file, buffer, caller's mask or name list never show."""
    import gsply
    p, q = realistic(5, c["k"], 3), realistic(5, c["k"], 4)
    f = ctx.path("buf.ply")

    def put(b, f=f):
        with open(f, "r+b" if os.path.exists(f) else "wb") as h:
            h.write(b)
            h.truncate()
    for name, rd in {"plyread": gsply.plyread, "load": gsply.GSData.load, "GSTensor.load": lambda x: gsply.GSTensor.load(x, device="cpu")}.items():
        put(refs.std_bytes(p))
        g = rd(f)
        s = snapshot(g)
        put(refs.std_bytes(q))
        need(snapshot(g) == s, f"loaded-scene-follows-file:{name}", "overwriting the file changed the loaded scene")
        _set(g, "means", 0, (7, 7, 7))
        if name != "GSTensor.load":
            g.to_rgb()
        with open(f, "rb") as h:
            need(h.read() == refs.std_bytes(q), f"edit-reaches-file:{name}", "editing a loaded scene changed its file")
        ctx.evaluations += 1
    blob = bytearray(gsply.compress_to_bytes(gsdata(p)))
    keep = bytes(blob)
    g = gsply.decompress_from_bytes(bytes(blob))
    s = snapshot(g)
    g.denormalize()
    need(bytes(blob) == keep, "buffer-changed")
    a = gsply.compress_to_arrays(gsdata(p))
    z = [np.array(x) if isinstance(x, np.ndarray) else x for x in a]
    gsply.compress_to_arrays(gsdata(q))
    need(all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, z)), "compressed-arrays-shared",
         "a later compression changed the arrays returned earlier")
    g2 = gsply.decompress_from_bytes(keep)
    need(snapshot(g2) == s, "decompress-shared-state", "editing one decompressed scene changed a later one")
    for cont in ("np", "t"):
        for kind in MASKS:
            g = make(ctx, cont, "cons", c["k"], kind, "ply")
            m = np.arange(len(g)) % 2 == 0
            mm = m if cont == "np" else __import__("torch").from_numpy(m)
            g.add_mask_layer("mine", mm)
            s = snapshot(g)
            mm[:] = True
            need(snapshot(g) == s, f"caller-mask-shared:{cont}:{kind}", "changing the caller's mask array changed the stored layer")
            h = g.copy() if cont == "np" else g.clone()
            lay_ = g.get_mask_layer("mine")
            need(bool((npy(lay_) == (np.arange(len(g)) % 2 == 0)).all()), "layer-value")
            need(snapshot(h) == s, "copy-differs")
            names = ["x", "y"]
            e = make(ctx, cont, "ctor", c["k"], "unnamed2", "ply")
            e.mask_names = names
            e.add_mask_layer("z", mm)
            need(names == ["x", "y"], f"caller-names-changed:{cont}", "adding a layer changed the caller's name list")
            e.mask_names = names
            e.remove_mask_layer("x")
            need(names == ["x", "y"], f"caller-names-changed:{cont}", "removing a layer changed the caller's name list")
            ctx.evaluations += 1
    ctx.saw("buf", c["k"])


def routes_of(cont):
    return ROUTES + ("packed",) if cont == "np" else TROUTES


def units(tier, seed):
    muts, _, _ = mutations()
    u = [{"arr": k} for k in KS]
    for cont in ("np", "t"):
        for r in routes_of(cont):
            for k in KS:
                if r == "none" and k:
                    continue
                u.append({"cont": cont, "route": r, "k": k, "part": "A"})
                u.append({"cont": cont, "route": r, "k": k, "part": "B1"})
                deep2 = (r, k) in ((("file", 3), ("ctor", 0)) if cont == "np" else (("from_np_cons", 3), ("ctor", 0)))
                if tier == "thorough" or deep2:
                    for j in range(6):
                        u.append({"cont": cont, "route": r, "k": k, "part": "B2", "j": j})
                if tier == "thorough" and deep2:
                    for j in range(12):
                        u.append({"cont": cont, "route": r, "k": k, "part": "B3", "j": j})
    for n in LARGE_TH if tier == "thorough" else LARGE:
        for cont, rs in (("np", ("ctor", "cons", "file")), ("t", ("ctor", "from_np_cons"))):
            for r in rs:
                for k in (0, 3) if n < 11000 else (0,):
                    if r != "file" or n == 10007:
                        u += [{"cont": cont, "route": r, "k": k, "part": "A", "n": n}, {"cont": cont, "route": r, "k": k, "part": "B1", "n": n}]
    return sorted(u, key=lambda x: -({"B3": 3, "B2": 2}.get(x.get("part"), 0)))


M3 = ("means", "shN", "masks", "add_layer", "remove_layer", "normalize", "denormalize", "to_rgb", "apply_inplace")
M2 = ("means", "scales", "shN", "masks", "names", "add_layer", "remove_layer", "repl_scales", "apply_inplace", "normalize",
      "denormalize", "to_rgb", "make_contiguous", "activate")


BIGM = (["means", "scales", "quats", "opacities", "sh0", "masks", "names"], ["shN"], ["add_layer", "format"], ["denormalize", "to_rgb"])
LARGE, LARGE_TH = (10007, 100003), (1025, 4099, 10007, 33000, 65537, 100003, 200003)


def run_unit(ctx, u):
    if "arr" in u:
        for lab in ("ply", "linear"):
            for l in LAYOUTS:
                for flat in ((False, True) if u["arr"] else (False,)):
                    c = {"arrays": 1, "k": u["arr"], "lab": lab, "layout": l, "flat": flat}
                    ctx.case(c, arrays, ctx, c)
        ctx.case({"buffers": 1, "k": u["arr"]}, buffers, ctx, {"k": u["arr"]})
        return
    ops = operations(u["cont"])
    muts, _, _ = mutations()
    base = {x: u[x] for x in ("cont", "route", "k", "n") if x in u}
    t = ctx.thorough
    if u["part"] == "A":
        for mk in ("named2", "none") if "n" in u else MASKS:
            for lab in ("ply", "linear"):
                if lab == "linear" and u["route"] in ("file", "file_slice", "packed"):
                    continue
                names = list(ops)
                if not t and mk != "named2":
                    names = [n for n in names if "write" not in n and n not in ("bytes", "arrays", "save_packed", "plywrite_packed", "plywrite_gpu")]
                c = {**base, "masks": mk, "lab": lab, "ops": names}
                ctx.case(c, source, ctx, c)
        return
    n = {"B1": 1, "B2": 2, "B3": 3}[u["part"]]
    pool = list(muts) if n == 1 else (list(muts) if t else M2) if n == 2 else M3
    copies = [o for o in ops if ops[o][0] != "none"]
    if "j" in u:
        copies = copies[u["j"]::6 if n == 2 else 12]
    for op in copies:
        for mk in (("named2",) if "n" in u else ("named2", "1d", "none") if n == 1 and (t or u["k"] in (0, 3)) and u["route"] != "packed" else ("named2",)):
            if op.startswith("apply") and mk == "none":
                continue
            for lab in (("ply",) if "n" in u else ("ply", "linear") if n == 1 and mk == "named2" and (t or u["k"] in (0, 3)) and u["route"] not in ("file", "file_slice", "packed") else ("ply",)):
                c = {**base, "masks": mk, "lab": lab, "op": op, "seqs": [x for x in BIGM if x != ["shN"] or u["k"]] if "n" in u else [list(x) for x in itertools.product(pool, repeat=n)]}
                ctx.case(c, independent, ctx, c)
    ctx.sample({**u, "copies": copies})


def warm(ctx, w):
    if w == "arr":
        for lab in ("ply", "linear"):
            ctx.case({}, arrays, ctx, {"k": 3, "lab": lab, "layout": "C", "flat": False})
        ctx.case({}, buffers, ctx, {"k": 0})
    else:
        for r in ("ctor", "cons", "packed"):
            for k in (0, 3):
                c = {"cont": w, "route": r, "k": k, "masks": "named2", "lab": "ply", "ops": list(operations(w))}
                ctx.case(c, source, ctx, c)
    ctx.evaluations, ctx.violations = 0, []


def replay(ctx, c):
    f = arrays if c.get("arrays") else buffers if c.get("buffers") else independent if "seqs" in c else source
    ctx.case(c, f, ctx, c)
