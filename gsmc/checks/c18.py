"""C18: gradient tracking: tracked tensor scenes can be optimised, and every operation carries the true derivative."""
import itertools

import numpy as np

from gsmc import refs
from gsmc.core import Violation, need
from gsmc.data import ATTRS, KS, fmt, gsdata, labels_of, npy, plain_of, realistic

LEVEL = "model_checking"
RULE = ("Breadth-first over all sequences of tensor-scene operations from every way of making a tracked (or untracked, or partly tracked) scene; the model carries, for every element of every attribute, its value, "
        "the tracked element it stems from and the derivative with respect to it. At every state a weighted sum of all attributes is differentiated by the real autograd and every leaf's gradient compared with the "
        "model. Training: every (operation before, optimiser step, operations after) sequence: later results must show the updated values. Distinct states are hashed by path, values and expected gradients.")
BOUND = {
    "quick": "32 operations, each alone also on scenes of 1025, 10,007 and 33,000 Gaussians; depth 2 from 14 initial scenes x 2 degrees, depth 3 for a subset of 14 operations from 3 of them; 3 Gaussians; all (operation, step, operation) triples from 6 initial scenes",
    "thorough": "depth 3 from all initial scenes and 4 degrees, depth 4 for the subset from 3 of them; all (operation, step, two operations) from 6 initial scenes",
}
ASSUMPTIONS = ["autograd itself (torch) is trusted for the elementary tensor operations", "CPU device only", "values lie inside every clamp, where the derivative is defined",
               "in-place colour conversion of a tracked scene may be refused by torch (RuntimeError) as long as nothing changes"]
WARM = ["w"]
BIG = 1 << 20
C0 = refs.SH_C0 if hasattr(refs, "SH_C0") else 0.28209479177387814


class M:
    """Model scene: per attribute value, origin (leaf element or -1), derivative and tracking flag."""

    def __init__(self):
        self.v, self.s, self.d, self.t = {}, {}, {}, {}
        self.labels, self.masks, self.names = ("ply", "ply", "sh"), None, None
        self.inplace = False

    def copy(self):
        m = M()
        for x in ("v", "s", "d"):
            setattr(m, x, {a: b.copy() for a, b in getattr(self, x).items()})
        m.t = dict(self.t)
        m.labels, m.inplace = self.labels, self.inplace
        m.masks = None if self.masks is None else self.masks.copy()
        m.names = None if self.names is None else list(self.names)
        return m

    def __len__(self):
        return len(self.v["means"])

    @property
    def k(self):
        return self.v["shN"].shape[1]

    def take(self, i):
        for x in (self.v, self.s, self.d):
            for a in ATTRS:
                x[a] = x[a][i].copy()
        if self.masks is not None:
            self.masks = self.masks[i].copy()
        return self

    def map(self, a, f, df):
        x = self.v[a].copy()
        self.v[a] = f(x)
        self.d[a] = self.d[a] * df(x)

    def setlab(self, i, l):
        b = list(self.labels)
        b[i] = l
        self.labels = tuple(b)

    @staticmethod
    def of(p, leaf, tracked):
        """tracked: attributes that are leaves with gradient."""
        m = M()
        for a in ATTRS:
            x = getattr(p, a).astype(np.float64)
            m.v[a] = x.copy()
            m.s[a] = (np.arange(x.size).reshape(x.shape) + leaf * BIG) if a in tracked else np.full(x.shape, -1)
            m.d[a] = np.ones(x.shape)
            m.t[a] = a in tracked
        m.labels = p.labels
        m.masks = None if p.masks is None else p.masks.copy()
        m.names = None if p.names is None else list(p.names)
        return m


def cat(a, b):
    """Model of concatenation (masks handled as everywhere: see C10)."""
    m = a.copy()
    for x in ATTRS:
        m.v[x], m.s[x], m.d[x] = (np.concatenate([getattr(a, f)[x], getattr(b, f)[x]]) for f in "vsd")
        m.t[x] = a.t[x] or b.t[x]
    if a.masks is None and b.masks is None:
        return m
    w = {y.masks.shape[1] for y in (a, b) if y.masks is not None}
    if len(w) > 1:
        m.masks = m.names = None
        return m
    w = w.pop()
    m.masks = np.concatenate([np.zeros((len(y), w), bool) if y.masks is None else y.masks for y in (a, b)])
    n = a.names if a.masks is not None and a.names is not None else b.names if b.masks is not None else None
    m.names = None if n is None else list(n)
    return m


# --- scenes ------------------------------------------------------------------------------

class World:
    """One real scene with its model; `leaves[i]` are the tensors the model's origins refer to."""

    def __init__(self):
        self.leaves = []


def build(ctx, kind, k, n=3):
    """Returns (world, real scene, model)."""
    import gsply
    import torch
    w = World()
    p = realistic(n, k, 5)
    p.scales = (p.scales * np.float32(0.5)).astype(np.float32)
    track = ATTRS
    kw = {}
    if kind == "masks":
        p.masks = np.resize(np.array([[True, False], [True, True], [False, True]]), (n, 2))
        p.names = ["a", "b"]
    if kind.startswith("linear"):
        p.scales = np.exp(p.scales.astype(np.float64)).astype(np.float32)
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        p.labels = ("linear", "linear", "sh")
    if kind == "rgb":
        p.sh0 = (p.sh0.astype(np.float64) * C0 + 0.5).astype(np.float32)
        p.labels = ("ply", "ply", "rgb")
    if kind.startswith("ctor"):
        part = ("means", "opacities") if kind == "ctor_partial" else ATTRS
        leaves = {a: torch.from_numpy(getattr(p, a).copy()).requires_grad_(a in part) for a in ATTRS}
        a = [leaves[x] for x in ATTRS]
        if kind == "ctor_none" and k == 0:
            a[5] = None
        g = gsply.GSTensor(*a, _format=fmt(p.labels, k))
        if kind == "ctor_cons":
            g = g.consolidate()
        track = tuple(x for x in part if not (x == "shN" and a[5] is None))
        w.leaves.append({x: leaves[x] for x in track})
        return w, g, M.of(p, 0, track)
    s = gsdata(p)
    if kind in ("cons", "masks", "untracked_cons"):
        s = s.consolidate()
    elif kind == "file":
        gsply.plywrite(ctx.path("src.ply"), s)
        s = gsply.plyread(ctx.path("src.ply"))
        s.masks = s.mask_names = None
    elif kind == "slice":
        s = gsdata(realistic_pad(p)).consolidate()[1:-1]
    if kind == "masked":
        kw["mask"] = np.arange(n) != 1
        p = p.take(np.arange(n) != 1)
    if kind == "f64":
        kw["dtype"] = torch.float64
    tracked = not kind.startswith("untracked")
    g = gsply.GSTensor.from_gsdata(s, device="cpu", requires_grad=tracked, **kw)
    if not tracked:
        return w, g, M.of(p, 0, ())
    track = ATTRS if k else ATTRS[:5]
    w.leaves.append({a: getattr(g, a) for a in track})
    return w, g, M.of(p, 0, track)


def realistic_pad(p):
    from gsmc.data import Plain
    a = [np.concatenate([x[:1], x, x[-1:]]) for x in p.arrays()]
    return Plain(*a, labels=p.labels)


KINDS = ("np", "cons", "file", "slice", "masked", "masks", "f64", "linear", "rgb", "ctor", "ctor_cons", "ctor_partial", "untracked", "untracked_cons")


def other(w, g, m, kind):
    """A second scene with the labels of the first; tracked ones add leaves."""
    import gsply
    k = m.k
    p = realistic(2, k, 9)
    p.labels = m.labels
    if m.labels[0] == "linear":
        p.scales = np.exp(p.scales.astype(np.float64) * 0.3).astype(np.float32)
    if m.labels[1] == "linear":
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
    s = gsdata(p)
    tr = "tracked" in kind
    o = gsply.GSTensor.from_gsdata(s, device="cpu", requires_grad=tr)
    o.copy_format_from(g)
    track = () if not tr else ATTRS if k else ATTRS[:5]
    x = o
    if tr:
        w.leaves.append({a: getattr(o, a) for a in track})
    if "cons" in kind:
        x = o.consolidate()
    return x, M.of(p, len(w.leaves) - 1 if tr else 0, track)


# --- operations --------------------------------------------------------------------------

def mk_ops():
    import gsply
    import torch
    ops = {}

    def op(name, lib, model, ok=lambda m: True):
        ops[name] = (lib, model, ok)

    def sel(name, key, mkey=None):
        op(name, lambda w, g, m: g[key(len(g))], lambda w, m: m.take((mkey or key)(len(m))))
    sel("[1:]", lambda n: slice(1, None))
    sel("[::2]", lambda n: slice(None, None, 2))
    sel("[:0]", lambda n: slice(0, 0))
    sel("[tmask]", lambda n: torch.arange(n) != 1, lambda n: np.arange(n) != 1)
    op("[-1,0,0]", lambda w, g, m: g[[-1, 0, 0]], lambda w, m: m.take(np.array([-1, 0, 0])), lambda m: len(m) > 0)
    sel("[t rev]", lambda n: torch.arange(n - 1, -1, -1), lambda n: np.arange(n - 1, -1, -1))
    op("get_gaussian(-1)", lambda w, g, m: g.get_gaussian(-1), lambda w, m: m.take(slice(len(m) - 1, None)), lambda m: len(m) > 0)
    same = lambda w, m: m
    op("clone", lambda w, g, m: g.clone(), same)
    op("consolidate", lambda w, g, m: g.consolidate(), same)
    op("double", lambda w, g, m: g.double(), same)
    op("float", lambda w, g, m: g.float(), same)
    op("cpu", lambda w, g, m: g.cpu(), same)
    op("sum", lambda w, g, m: sum([g]), same)
    op("self+self", lambda w, g, m: g + g, lambda w, m: cat(m, m), lambda m: len(m) < 7 or len(m) > 99)

    def addop(name, kind, left):
        def lib(w, g, m):
            o, om = other(w, g, m, kind)
            w.last = om
            return g.add(o) if left else o + g
        op(name, lib, lambda w, m: cat(m, w.last) if left else cat(w.last, m), lambda m: len(m) < 7 or len(m) > 99)
    addop("add(untracked)", "", True)
    addop("add(tracked_cons)", "tracked cons", True)
    addop("tracked+g", "tracked", False)
    addop("untracked_cons+g", "cons", False)

    def addmask(w, m):
        c = (np.arange(len(m)) % 2 == 0)[:, None]
        if m.masks is None:
            m.masks, m.names = c, ["x"]
        else:
            m.names = [*(m.names or [f"layer_{i}" for i in range(m.masks.shape[1])]), "x"]
            m.masks = np.concatenate([m.masks, c], 1)
        return m
    op("add_mask", lambda w, g, m: (g.add_mask_layer("x", torch.arange(len(g)) % 2 == 0), g)[1], addmask, lambda m: not (m.names and "x" in m.names))
    has = lambda m: m.masks is not None
    op("apply_and", lambda w, g, m: g.apply_masks("and"), lambda w, m: m.take(m.masks.all(1)), has)
    op("apply_or_inplace", lambda w, g, m: g.apply_masks("or", inplace=True), lambda w, m: m.take(m.masks.any(1)), has)

    def norm(w, m):
        if m.labels[0] == "linear":
            m.map("scales", np.log, lambda x: 1 / x)
        if m.labels[1] == "linear":
            m.map("opacities", lambda x: np.log(x / (1 - x)), lambda x: 1 / (x * (1 - x)))
        m.labels = ("ply", "ply", m.labels[2])
        return m

    def denorm(w, m):
        if m.labels[0] == "ply":
            m.map("scales", np.exp, np.exp)
        if m.labels[1] == "ply":
            sg = lambda x: 1 / (1 + np.exp(-x))
            m.map("opacities", sg, lambda x: sg(x) * (1 - sg(x)))
        m.labels = ("linear", "linear", m.labels[2])
        return m
    op("normalize", lambda w, g, m: g.normalize(), norm)
    op("normalize_new", lambda w, g, m: g.normalize(inplace=False), norm)
    op("denormalize", lambda w, g, m: g.denormalize(), denorm)
    op("denormalize_new", lambda w, g, m: g.denormalize(inplace=False), denorm)
    op("to_ply_tensor", lambda w, g, m: g.to_ply_tensor(), norm)

    def rgb(w, m):
        m.map("sh0", lambda x: x * C0 + 0.5, lambda x: np.full(x.shape, C0))
        m.setlab(2, "rgb")
        return m

    def sh(w, m):
        m.map("sh0", lambda x: (x - 0.5) / C0, lambda x: np.full(x.shape, 1 / C0))
        m.setlab(2, "sh")
        return m
    op("to_rgb_new", lambda w, g, m: g.to_rgb(inplace=False), rgb, lambda m: m.labels[2] == "sh")
    op("to_sh_new", lambda w, g, m: g.to_sh(inplace=False), sh, lambda m: m.labels[2] == "rgb")

    def inpl(name, f, model, lab):
        def lib(w, g, m):
            w.refused = False
            try:
                f(g)
            except RuntimeError:
                need(any(m.t.values()), f"refused:{name}", "an in-place conversion of a scene without tracking was refused")
                w.refused = True
            return g

        def mod(w, m):
            m.inplace = True
            return m if w.refused else model(w, m)
        op(name, lib, mod, lambda m: m.labels[2] == lab)
    inpl("to_rgb_inplace", lambda g: g.to_rgb(), rgb, "sh")
    inpl("to_sh_inplace", lambda g: g.to_sh(), sh, "rgb")

    def nomask(w, m):
        m.masks = m.names = None
        return m
    op("rebuild", lambda w, g, m: gsply.GSTensor(*g.unpack(), _format=g.format_state), nomask)

    def viadict(w, g, m):
        from gsply.gsdata import DataFormat as D
        return gsply.GSTensor.from_dict(g.to_dict(), format=m.labels[0], sh0_format=D.SH0_SH if m.labels[2] == "sh" else D.SH0_RGB, device="cpu")

    def viaarr(w, g, m):
        from gsply.gsdata import DataFormat as D
        return gsply.GSTensor.from_arrays(*g.unpack(), format=m.labels[0], sh0_format=D.SH0_SH if m.labels[2] == "sh" else D.SH0_RGB, device="cpu")
    eq = lambda m: m.labels[0] == m.labels[1]
    op("from_dict", viadict, nomask, eq)
    op("from_arrays", viaarr, nomask, eq)

    def scale_means(w, g, m):
        g.means = g.means * 2.0
        return g

    def m_scale(w, m):
        m.map("means", lambda x: 2 * x, lambda x: np.full(x.shape, 2.0))
        return m
    op("means*2", scale_means, m_scale)
    return ops


SUBSET = ("[1:]", "[tmask]", "[-1,0,0]", "clone", "consolidate", "self+self", "add(untracked)", "tracked+g", "apply_or_inplace", "denormalize", "normalize_new", "to_rgb_new", "from_dict", "means*2")


# --- observation -------------------------------------------------------------------------

def weight(a, shape):
    n = int(np.prod(shape))
    i = ATTRS.index(a)
    return (((np.arange(n) * 37 + i * 11) % 29 + 1) / 16.0 * np.where((np.arange(n) + i) % 3 == 0, -1, 1)).reshape(shape)


def close(x, y, key, what):
    x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
    need(x.shape == y.shape, key + ":shape", f"{what}: shape {x.shape}, expected {y.shape}")
    bad = ~(np.abs(x - y) <= 1e-4 * np.abs(y) + 2e-5)
    need(not bad.any(), key + ":value", lambda: f"{what}: {x[bad].ravel()[:4]} expected {y[bad].ravel()[:4]}")


def values(g, m, what):
    p = plain_of(g)
    for a in ATTRS:
        close(getattr(p, a), m.v[a], f"{what}:{a}", a)
    need(labels_of(g) == m.labels, f"{what}:labels", f"{labels_of(g)} instead of {m.labels}")
    need((p.masks is None) == (m.masks is None), f"{what}:masks", "masks appeared or vanished")
    if m.masks is not None:
        need(np.asarray(p.masks).size == m.masks.size and np.array_equal(np.asarray(p.masks).reshape(m.masks.shape), m.masks), f"{what}:masks", "mask values differ")
        need(p.names == m.names, f"{what}:names", f"{p.names} instead of {m.names}")


def gradients(ctx, w, g, m, what):
    """All tracked attributes of the state, differentiated by the real autograd."""
    import torch
    tracked = any(m.t.values())
    loss = None
    for a in ATTRS:
        x = getattr(g, a)
        if x is None:
            continue
        if m.t[a]:
            need(x.requires_grad, f"{what}:{a}:untracked", f"{a} lost its gradient tracking")
        elif not tracked:
            need(not x.requires_grad, f"{what}:{a}:tracked", f"{a} gained gradient tracking")
        if x.requires_grad:
            t = (x.double() * torch.from_numpy(weight(a, x.shape))).sum()
            loss = t if loss is None else loss + t
    if not tracked:
        return
    need(loss is not None, f"{what}:untracked", "no attribute is tracked any more")
    for leaf in w.leaves:
        for x in leaf.values():
            x.grad = None
    try:
        loss.backward()
    except RuntimeError as e:
        if m.inplace and "inplace" in str(e):
            return          # torch refuses to differentiate through a value changed in place
        raise
    for i, leaf in enumerate(w.leaves):
        for a, x in leaf.items():
            e = np.zeros(x.numel())
            for b in ATTRS:
                s = m.s[b].ravel() - i * BIG
                ok = (s >= 0) & (s < BIG) if b == a else np.zeros(s.shape, bool)
                np.add.at(e, s[ok], (weight(b, m.v[b].shape).ravel() * m.d[b].ravel())[ok])
            got = np.zeros(x.numel()) if x.grad is None else npy(x.grad).astype(np.float64).ravel()
            close(got, e, f"{what}:grad:{a}", f"gradient of {a} of scene {i}")
            ctx.saw(what, e.tobytes())


def leaves_ok(w, what):
    import torch
    for leaf in w.leaves:
        for a, x in leaf.items():
            need(x.is_leaf and x.requires_grad, f"{what}:leaf:{a}", f"{a} of a tracked scene is not a leaf: its gradient is not kept and optimisers refuse it")
        torch.optim.SGD(list(leaf.values()), lr=0.1)


def outputs(ctx, g, m, what):
    """Saving and converting work on tracked scenes, and leave them tracked."""
    import gsply
    before = [None if getattr(g, a) is None else getattr(g, a).requires_grad for a in ATTRS]
    d = g.to_gsdata()
    for a in ATTRS:
        x = getattr(d, a)
        need(x is None or isinstance(x, np.ndarray), f"{what}:to_gsdata", f"{a} is no array")
        close(np.zeros(m.v[a].shape) if x is None else x, m.v[a], f"{what}:to_gsdata:{a}", a)
    q = m.copy()
    q = OPS()["to_ply_tensor"][1](None, q)
    if q.labels[2] == "rgb":
        q.map("sh0", lambda x: (x - 0.5) / C0, lambda x: x)
    f = ctx.path("o.ply")
    g.save(f, compressed=False)
    r = gsply.plyread(f)
    for a in ATTRS:
        x = getattr(r, a)
        close(np.zeros(q.v[a].shape) if x is None else x, q.v[a], f"{what}:save:{a}", a)
    if len(m):
        f = ctx.path("o.compressed.ply")
        g.save(f)
        need(len(gsply.plyread(f)) == len(m), f"{what}:save_compressed", "wrong number of Gaussians")
    need(before == [None if getattr(g, a) is None else getattr(g, a).requires_grad for a in ATTRS], f"{what}:output-changed-tracking", "saving changed the tracking")


_ops = {}


def OPS():
    if not _ops:
        _ops.update(mk_ops())
    return _ops


def follow(ctx, kind, k, path, n=3):
    """Replay a history; None when some operation does not apply."""
    w, g, m = build(ctx, kind, k, n)
    for o in path:
        lib, model, ok = OPS()[o]
        if not ok(m):
            return None
        g = lib(w, g, m)
        m = model(w, m)
    return w, g, m


def one(ctx, kind, k, path, n=3):
    r = follow(ctx, kind, k, path, n)
    if r is None:
        return False
    w, g, m = r
    what = path[-1] if path else "init:" + kind
    values(g, m, what)
    gradients(ctx, w, g, m, what)
    if not path:
        leaves_ok(w, what)
    if len(path) <= 1:
        outputs(ctx, g, m, what)
        values(g, m, what + ":after-output")
    ctx.saw(kind, k, tuple(path), n)
    ctx.transitions += 1
    ctx.states += 1
    return True


def train(ctx, kind, k, before, after):
    """operation on the scene (result dropped), optimiser step on its leaves, then operations: all show the new values."""
    import torch
    w, g, m = build(ctx, kind, k)
    keep = m.copy()
    if before:
        lib, model, ok = OPS()[before]
        if not ok(m):
            return False
        n = len(w.leaves)
        lib(w, g, m)
        del w.leaves[n:]
        if m.inplace:
            return False
    leaves = w.leaves[0]
    opt = torch.optim.SGD(list(leaves.values()), lr=0.25)
    opt.zero_grad()
    loss = None
    for a, x in leaves.items():
        t = (x.double() * torch.from_numpy(weight(a, x.shape))).sum()
        loss = t if loss is None else loss + t
    loss.backward()
    opt.step()
    for a in leaves:
        keep.v[a] = keep.v[a] - 0.25 * weight(a, keep.v[a].shape)
    m = keep
    for o in after:
        lib, model, ok = OPS()[o]
        if not ok(m):
            return False
        g = lib(w, g, m)
        m = model(w, m)
    values(g, m, f"train:{after[-1] if after else before}")
    gradients(ctx, w, g, m, f"train:{after[-1] if after else before}")
    outputs(ctx, g, m, f"train:{after[-1] if after else before}")
    ctx.saw("train", kind, k, before, tuple(after))
    ctx.transitions += 1
    return True


INPLACE = ("add_mask", "apply_or_inplace", "normalize", "denormalize", "to_rgb_inplace", "to_sh_inplace", "means*2")
# the scene itself keeps its leaves: anything that does not replace the scene's own attributes
TRAIN_KINDS = ("np", "cons", "file", "masked", "f64", "ctor")


def explore(ctx, kind, k, depth, first, subset):
    names = [o for o in OPS() if not subset or o in SUBSET]
    frontier = [[]]
    if first is None or names[0] in first:
        ctx.case({"kind": kind, "k": k, "path": []}, one, ctx, kind, k, [])
    for d in range(depth):
        nxt = []
        for path in frontier:
            for o in names:
                if d == 0 and first is not None and o not in first:
                    continue
                c = {"kind": kind, "k": k, "path": path + [o]}
                if ctx.case(c, one, ctx, kind, k, path + [o]):
                    ctx.traces += 1
                    nxt.append(path + [o])
        frontier = nxt


def warm(ctx, k):
    for kd in KINDS:
        one(ctx, kd, 3, [])
    ctx.evaluations, ctx.violations = 0, []


def units(tier, seed):
    names = list(OPS())
    u = []
    t = tier == "thorough"
    for kd in KINDS:
        for k in (KS if t else (0, 3)):
            if t:
                u += [{"kind": kd, "k": k, "depth": 3, "first": names[j::3], "subset": 0} for j in range(3)]
            else:
                u.append({"kind": kd, "k": k, "depth": 2, "first": None, "subset": 0})
    for kd, k in (("np", 3), ("cons", 0), ("ctor_cons", 3)):
        for j in range(7 if not t else 14):
            u.append({"kind": kd, "k": k, "depth": 4 if t else 3, "first": list(SUBSET[j::7 if not t else 14]), "subset": 1})
    for n, k in ((1025, 3), (10007, 0), (33000, 0)) if not t else ((1025, 15), (4099, 3), (10007, 15), (33000, 0), (65537, 3), (100003, 0)):
        u += [{"large": n, "kind": kd, "k": k} for kd in KINDS]
    for kd in TRAIN_KINDS:
        u += [{"train": kd, "k": k} for k in (KS if t else (0, 3))]
    u += [{"kind": "ctor_none", "k": 0, "depth": 2, "first": None, "subset": 0}]
    u.sort(key=lambda x: -x.get("depth", 1))
    return u


def run_unit(ctx, u):
    if "large" in u:
        for path in ([], *([o] for o in OPS())):
            c = {"kind": u["kind"], "k": u["k"], "path": path, "n": u["large"]}
            ctx.case(c, one, ctx, u["kind"], u["k"], path, u["large"])
            ctx.traces += 1
        return
    if "train" in u:
        names = list(OPS())
        bs = [None] + [o for o in names if o not in INPLACE]
        tails = [[], *[[o] for o in names]]
        if ctx.thorough:
            tails += [[a, b] for a in SUBSET for b in SUBSET]
        for b in bs:
            for t in tails:
                c = {"train": u["train"], "k": u["k"], "before": b, "after": t}
                ctx.case(c, train, ctx, u["train"], u["k"], b, t)
                ctx.traces += 1
        return
    explore(ctx, u["kind"], u["k"], u["depth"], u["first"], u["subset"])
    ctx.sample({"init": u["kind"], "k": u["k"], "depth": u["depth"], "states": ctx.states})


def replay(ctx, c):
    if "train" in c:
        ctx.case(c, train, ctx, c["train"], c["k"], c["before"], c["after"])
    else:
        ctx.case(c, one, ctx, c["kind"], c["k"], c["path"], c.get("n", 3))
