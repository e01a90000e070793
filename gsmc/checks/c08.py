"""C08: mask layers behave as named boolean columns, for every history, in both containers."""
import itertools

import numpy as np

from gsmc.core import need
from gsmc.data import fmt, gsdata, npy, plain_of, realistic, same, snapshot
from gsmc.explore import Explorer, Op, fingerprint
from gsmc.hist import cat, other
from gsmc.thist import tensor

LEVEL = "model_checking"
RULE = ""
ENV = {"NUMBA_NUM_THREADS": "2"}
BOUND = {
    "quick": "all histories of length <=3 (<=4 from 12 of them) over 27 mask operations from 88 initial scenes (2 containers x 2 representations x 8 initial mask "
             "shapes, N in {0,1,3}); at every state every combination of <=4 layers x 2 modes; all 2^L row patterns x all layer subsets for L<=6; every number of accepting layers for 25 layer counts up to 513; scenes of 6 sizes from 2049 to 100,003 with 1, 2, 3, 5 layers",
    "thorough": "histories of length <=6 from N=3 and <=5 otherwise; all row patterns x all layer subsets for L<=8, all column orders for L<=4; every number of accepting layers for every layer count in 2..529",
}
ASSUMPTIONS = ["an explicit layer selection names each layer once and is not empty", "mask arrays are boolean-like of the scene's length "
               "or of a wrong shape (rejected)", "scenes of at most 3 Gaussians in histories; the row-wise combination is enumerated separately to 2^8 rows"]
WARM = ["np0", "np1", "t0", "big"]
NAMES = ("a", "b", "layer_0", "layer_1")
SHAPES = ("none", "1d", "1d_named", "n1", "n1_named", "n2", "n2_named", "n3_named")


def pat(name, n, alt=False):
    i = np.arange(n) + (1 if alt else 0)
    return {"a": i % 2 == 0, "b": i != 1, "layer_0": i % 3 == 2, "layer_1": i >= 0}[name]


def scene(n, k, shape):
    p = realistic(n, k, 2)
    if shape != "none":
        L = 1 if shape.startswith("1d") or shape.startswith("n1") else int(shape[1])
        cols = [np.arange(n) % 2 == 1, np.arange(n) % 3 != 2, np.arange(n) >= 1][:L]
        p.masks = np.stack(cols, 1)
        if shape.endswith("named"):
            p.names = ["a", "c", "b"][:L]
    return p


def build(cont, cons, p, shape):
    q = p.copy()
    if cont == "np":
        g = gsdata(q)
        if shape.startswith("1d"):
            g.masks = g.masks[:, 0].copy()
        return g.consolidate() if cons else g
    g = tensor(q)
    if shape.startswith("1d"):
        g.masks = g.masks[:, 0].clone()
    return g.consolidate() if cons else g


def m_add(name, alt=False):
    def f(p):
        names = p.names
        if p.masks is not None and names is None:
            names = [f"layer_{i}" for i in range(p.masks.shape[1])]
        if names is not None and name in names:
            return None, {}
        m = pat(name, len(p), alt)[:, None]
        p.masks = m.copy() if p.masks is None else np.concatenate([p.masks, m], 1)
        p.names = [name] if names is None else list(names) + [name]
        return p, {}
    return f


def reject(p):
    return None, {}


def m_remove(name):
    def f(p):
        if p.names is None or name not in p.names:
            return None, {}
        i = p.names.index(name)
        p.masks = np.delete(p.masks, i, 1)
        p.names.pop(i)
        if not p.names:
            p.masks = p.names = None
        return p, {}
    return f


def m_comb(p, mode, layers):
    """Combined vector, or None when the request must be rejected."""
    if p.masks is None or mode not in ("and", "or"):
        return None
    cols = p.masks
    if layers is not None:
        if p.names is None or any(x not in p.names for x in layers):
            return None
        cols = cols[:, [p.names.index(x) for x in layers]]
    return cols.all(1) if mode == "and" else cols.any(1)


def m_apply(mode, layers=None):
    def f(p):
        m = m_comb(p, mode, layers)
        return (None, {}) if m is None else (p.take(m), {})
    return f


def mkops(cont):
    import gsply
    import torch
    T = cont == "t"
    wrap = (lambda m: torch.from_numpy(np.array(m))) if T else (lambda m: m)
    o = []

    def add(name, lib, model, ok=None):
        o.append(Op(name, lib, model, ok))

    def call(f):
        return lambda g, c: (f(g), g)[1]
    for n in NAMES:
        add(f"add({n})", call(lambda g, n=n: g.add_mask_layer(n, wrap(pat(n, len(g))))), m_add(n))
        add(f"remove({n})", call(lambda g, n=n: g.remove_mask_layer(n)), m_remove(n))
    add("add(a,other pattern)", call(lambda g: g.add_mask_layer("a", wrap(pat("a", len(g), True)))), m_add("a", True))
    add("add(b,0/1)", call(lambda g: g.add_mask_layer("b", wrap(pat("b", len(g)).astype(np.uint8)))), m_add("b"))
    add("add(long)", call(lambda g: g.add_mask_layer("z", wrap(np.ones(len(g) + 1, bool)))), reject)
    add("add(short)", call(lambda g: g.add_mask_layer("z", wrap(np.ones(len(g) - 1, bool)))), reject, lambda p: len(p) > 0)
    add("add(2d)", call(lambda g: g.add_mask_layer("z", wrap(np.ones((len(g), 1), bool)))), reject)
    add("add(scalar)", call(lambda g: g.add_mask_layer("z", wrap(np.True_))), reject)
    add("remove(unknown)", call(lambda g: g.remove_mask_layer("zz")), reject)
    for mode in ("and", "or"):
        add(f"apply({mode})", lambda g, c, mode=mode: g.apply_masks(mode), m_apply(mode))
    add("apply(a)", lambda g, c: g.apply_masks("and", ["a"]), m_apply("and", ["a"]))
    add("apply_inplace(or)", lambda g, c: g.apply_masks("or", inplace=True), m_apply("or"))
    add("apply_inplace(and;b,a)", lambda g, c: g.apply_masks("and", ["b", "a"], inplace=True), m_apply("and", ["b", "a"]))
    add("apply(bad mode)", lambda g, c: g.apply_masks("xor"), reject)
    add("[1:]", lambda g, c: g[1:], lambda p: (p.take(slice(1, None)), {}))
    add("[mask]", lambda g, c: g[wrap(np.arange(len(g)) != 1)], lambda p: (p.take(np.arange(len(p)) != 1), {}))
    add("copy", lambda g, c: g.clone() if T else g.copy(), lambda p: (p, {}))
    add("consolidate", lambda g, c: g.consolidate(), lambda p: (p, {}))
    if T:
        add("convert", lambda g, c: gsply.GSTensor.from_gsdata(g.to_gsdata(), device="cpu"), lambda p: (p, {}))
    else:
        add("convert", lambda g, c: gsply.GSTensor.from_gsdata(g, device="cpu").to_gsdata(), lambda p: (p, {}))

    def plain(p):
        return tensor(p) if T else gsdata(p)

    def m_cat(p):
        q = cat([p, other(p.k, p.labels)])
        if p.masks is not None:
            q.masks = np.concatenate([p.masks, np.zeros((2, p.masks.shape[1]), bool)])
            q.names = None if p.names is None else list(p.names)
        return q, {}
    add("g+unmasked", lambda g, c: g + plain(other(0 if g.shN is None else g.shN.shape[1], ("ply", "ply", "sh"))), m_cat, lambda p: len(p) < 4)
    return o


def rejects(f, what):
    try:
        f()
    except ValueError:
        return
    need(False, f"not-rejected:{what}", f"{what} was accepted")


def observe(ctx, g, p):
    n = len(p)
    if p.masks is not None:
        m = npy(g.masks)
        need(m.shape[0] == n and (m.ndim == 1 and p.masks.shape[1] == 1 or m.ndim == 2 and m.shape[1] == p.masks.shape[1]), "shape",
             lambda: f"masks shape {m.shape}, expected {p.masks.shape}")
        need(p.names is None or len(set(p.names)) == len(p.names) == p.masks.shape[1], "model")
    else:
        need(g.masks is None and g.mask_names is None, "absent", "masks without layers")
    for nm in (p.names or []):
        x = npy(g.get_mask_layer(nm))
        need(x.dtype == bool and x.shape == (n,) and bool((x == p.masks[:, p.names.index(nm)]).all()), "get_mask_layer", lambda: f"layer {nm}: {x}")
    rejects(lambda: g.get_mask_layer("zz"), "get of an unknown layer")
    rejects(lambda: g.combine_masks("nand"), "combine with an unknown mode")
    sels = [None]
    if p.names:
        nm = p.names[:4]
        sels += [list(s) for r in range(1, len(nm) + 1) for s in itertools.combinations(nm, r)] + [nm[::-1]]
    for sel in sels:
        for mode in ("and", "or"):
            w = m_comb(p, mode, sel)
            if w is None:
                rejects(lambda: g.combine_masks(mode, sel), "combine without layers")
                continue
            x = npy(g.combine_masks(mode, sel))
            need(x.dtype == bool and x.shape == (n,) and bool((x == w).all()), f"combine:{mode}",
                 lambda: f"combine_masks({mode!r}, {sel}) is {x.astype(int).tolist()}, expected {w.astype(int).tolist()}")
            same(plain_of(g.apply_masks(mode, sel)), p.take(w), f"apply:{mode}")
    rejects(lambda: g.combine_masks("and", ["zz"]), "combine of an unknown layer")
    if p.names:
        rejects(lambda: g.combine_masks("or", [p.names[0], "zz"]), "combine of an unknown layer")
    same(plain_of(g), p, "after-queries")


# --- row patterns ------------------------------------------------------------------------------

def rows(ctx, c):
    """Every row pattern of L layers at once (2^L rows, rotated), every layer subset, both modes, several mask layouts."""
    import torch
    L, cont = c["L"], c["cont"]
    n = 2 ** L
    m = ((np.arange(n)[:, None] >> np.arange(L)) & 1).astype(bool)
    m = np.roll(m, c["rot"], 0)
    names = [f"m{i}" for i in range(L)]
    p = realistic(n, 0, 1)
    p.masks, p.names = m, names
    if cont == "np":
        g = gsdata(p)
        if c["layout"] == "F":
            g.masks = np.asfortranarray(m)
        elif c["layout"] == "wide":
            w = np.zeros((n, 2 * L), bool)
            w[:, ::2] = m
            g.masks = w[:, ::2]
        elif c["layout"] == "rev":
            g.masks = np.ascontiguousarray(m[::-1])[::-1]
    else:
        g = tensor(p)
        if c["layout"] == "F":
            g.masks = torch.from_numpy(np.ascontiguousarray(m.T)).T
        elif c["layout"] == "wide":
            w = torch.zeros((n, 2 * L), dtype=torch.bool)
            w[:, ::2] = torch.from_numpy(m)
            g.masks = w[:, ::2]
    sels = [None] + [list(s) for r in range(1, L + 1) for s in (itertools.permutations(names, r) if L <= 4 else itertools.combinations(names, r))]
    for sel in sels:
        cols = m if sel is None else m[:, [names.index(x) for x in sel]]
        for mode in ("and", "or"):
            w = cols.all(1) if mode == "and" else cols.any(1)
            x = npy(g.combine_masks(mode, sel))
            ctx.evaluations += 1
            need(x.shape == (n,) and x.dtype == bool and bool((x == w).all()), f"rows:{cont}:{mode}",
                 lambda: f"L={L} layers {sel}: row {m[(x != w)][0].astype(int).tolist()} combined with {mode} to the wrong value")
    for mode in ("and", "or"):
        w = m.all(1) if mode == "and" else m.any(1)
        same(plain_of(g.apply_masks(mode)), p.take(w), f"rows:apply:{mode}")
    ctx.beat()
    ctx.saw("rows", c)


COUNTS = (2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513)


def counts(ctx, c):
    """Many layers: exactly r layers accept (reject) a row, for every r, from either end, and one layer alone at every position."""
    import torch
    L, cont = c["L"], c["cont"]
    i, j = np.arange(L + 1)[:, None], np.arange(L)[None]
    m = np.concatenate([j < i, j >= i, j != i[:-1], j == i[:-1]])
    p = realistic(len(m), 0, 1)
    p.masks, p.names = m, [f"m{x}" for x in range(L)]
    g = gsdata(p) if cont == "np" else tensor(p)
    if c["layout"] == "F":
        g.masks = np.asfortranarray(m) if cont == "np" else torch.from_numpy(np.ascontiguousarray(m.T)).T
    for sel in (None, p.names[::-1], p.names[1:], p.names[:-1], p.names[::2]):
        cols = m if sel is None else m[:, [int(x[1:]) for x in sel]]
        for mode in ("and", "or"):
            w = cols.all(1) if mode == "and" else cols.any(1)
            x = npy(g.combine_masks(mode, sel))
            ctx.evaluations += 1
            need(x.shape == w.shape and x.dtype == bool and bool((x == w).all()), f"counts:{cont}:{mode}",
                 lambda: f"{cols.shape[1]} layers of which {int(cols[(x != w)][0].sum())} accept a row: combined with {mode} to the wrong value")
    same(plain_of(g.apply_masks("or")), p.take(m.any(1)), "counts:apply:or")
    ctx.beat()
    ctx.saw("counts", c)


BIGN, BIGN_TH = (2049, 4097, 10007, 33000, 65537, 100003), (1025, 2048, 4096, 8192, 10000, 16385, 20011, 32768, 50021, 65536, 131075, 200003, 262145, 500009, 1000003)


def bigrows(ctx, c):
    """Many Gaussians: every layer subset, mode and layout, with a row pattern that differs between any two neighbouring blocks."""
    import torch
    n, L, cont = c["n"], c["L"], c["cont"]
    i = np.arange(n)
    pat = (i * 7 + i // 97 + i // 4096 * 3) % 2 ** L
    m = ((pat[:, None] >> np.arange(L)) & 1).astype(bool)
    m[[0, n // 2, n - 1]] = [[True] * L, [False] * L, [True] + [False] * (L - 1)]
    names = [f"m{x}" for x in range(L)]
    p = realistic(n, 0, 1)
    g = gsdata(p) if cont == "np" else tensor(p)
    wrap = (lambda x: x) if cont == "np" else torch.from_numpy
    for j, x in enumerate(names):
        g.add_mask_layer(x, wrap(m[:, j].copy()))
    p.masks, p.names = m, names
    same(plain_of(g), p, "big:added")
    if c["layout"] == "F":
        g.masks = np.asfortranarray(m) if cont == "np" else torch.from_numpy(np.ascontiguousarray(m.T)).T
    for j, x in enumerate(names):
        need(bool((npy(g.get_mask_layer(x)).reshape(-1) == m[:, j]).all()), f"big:{cont}:layer", x)
    for r in range(1, L + 1):
        for sel in [None, *(list(s) for s in itertools.combinations(names, r))] if r == 1 else [list(s) for s in itertools.combinations(names[::-1], r)]:
            cols = m if sel is None else m[:, [names.index(x) for x in sel]]
            for mode in ("and", "or"):
                w = cols.all(1) if mode == "and" else cols.any(1)
                x = npy(g.combine_masks(mode, sel))
                ctx.evaluations += 1
                need(x.shape == (n,) and x.dtype == bool and bool((x == w).all()), f"big:{cont}:{mode}",
                     lambda: f"{n} Gaussians, layers {sel}: row {int(np.flatnonzero(x != w)[0])} combined with {mode} to the wrong value")
    for mode, sel in (("and", None), ("or", names[:2])):
        w = m.all(1) if mode == "and" else m[:, :2].any(1)
        same(plain_of(g.apply_masks(mode, sel)), p.take(w), f"big:apply:{mode}")
    g.remove_mask_layer(names[-1])
    p.masks, p.names = m[:, :-1] if L > 1 else None, names[:-1] or None
    same(plain_of(g), p, "big:removed")
    w = m[:, :-1].any(1) if L > 1 else None
    if w is not None:
        g.apply_masks("or", inplace=True)
        same(plain_of(g), p.take(w), "big:apply-inplace")
    ctx.beat()
    ctx.saw("bigrows", c)


def big_cases(tier):
    for cont in ("np", "t"):
        for n in BIGN + (BIGN_TH if tier == "thorough" else ()):
            for L in (1, 2, 3, 5) if tier != "thorough" else range(1, 8):
                for lay in ("C", "F"):
                    yield {"bigrows": 1, "cont": cont, "n": n, "L": L, "layout": lay}


def count_cases(tier):
    for cont in ("np", "t"):
        for L in (range(2, 530) if tier == "thorough" else COUNTS):
            for lay in ("C", "F") if tier != "thorough" or L in COUNTS else ("C",):
                yield {"counts": 1, "cont": cont, "L": L, "layout": lay}


def row_cases(tier):
    top = 8 if tier == "thorough" else 6
    for cont in ("np", "t"):
        for L in range(1, top + 1):
            for rot in (0, 1):
                for lay in (("C", "F", "wide", "rev") if cont == "np" else ("C", "F", "wide")):
                    yield {"rows": 1, "cont": cont, "L": L, "rot": rot, "layout": lay}


def units(tier, seed):
    u = [{"rows": 1, "cont": c} for c in ("np", "t")]
    u += [{"big": n, "cont": c} for n in BIGN + (BIGN_TH if tier == "thorough" else ()) for c in ("np", "t")]
    for cont in ("np", "t"):
        for cons in (False, True):
            for n in (3, 1, 0):
                for s in SHAPES:
                    if n == 0 and s in ("n3_named", "n1"):
                        continue
                    u.append({"cont": cont, "cons": cons, "n": n, "shape": s, "k": 3 if cons else 0})
    return sorted(u, key=lambda x: -x.get("n", 9))


def run_unit(ctx, u):
    if "rows" in u:
        for c in row_cases(ctx.tier):
            if c["cont"] == u["cont"]:
                ctx.case(c, rows, ctx, c)
        for c in count_cases(ctx.tier):
            if c["cont"] == u["cont"]:
                ctx.case(c, counts, ctx, c)
        return
    if "big" in u:
        for c in big_cases(ctx.tier):
            if c["cont"] == u["cont"] and c["n"] == u["big"]:
                ctx.case(c, bigrows, ctx, c)
        return
    p = scene(u["n"], u["k"], u["shape"])
    d = (6 if u["n"] == 3 else 5) if ctx.thorough else 4 if u["n"] == 3 and u["shape"] in ("none", "1d", "n2_named") else 3
    Explorer(ctx, mkops(u["cont"]), observe, u, max_n=5).run("x", lambda: build(u["cont"], u["cons"], p, u["shape"]), p, d)
    ctx.sample({**u, "states": ctx.states, "depth": d})


def warm(ctx, w):
    if w == "big":
        for cont in ("np", "t"):
            for lay in ("C", "F", "wide", "rev"):
                c = {"cont": cont, "L": 3, "rot": 0, "layout": lay}
                ctx.case(c, rows, ctx, c)
    else:
        cont = w.rstrip("01")
        p = scene(3, 0, "n2_named")
        Explorer(ctx, mkops(cont), observe, {}).replay("x", lambda: build(cont, w.endswith("1"), p, "n2_named"), p, ["add(b)", "[1:]", "remove(a)", "[mask]"])
    ctx.evaluations, ctx.violations = 0, []


def replay(ctx, c):
    if "bigrows" in c:
        ctx.case(c, bigrows, ctx, c)
        return
    if "counts" in c:
        ctx.case(c, counts, ctx, c)
        return
    if "rows" in c:
        ctx.case(c, rows, ctx, c)
        return
    p = scene(c["n"], c["k"], c["shape"])
    Explorer(ctx, mkops(c["cont"]), observe, c, max_n=5).replay("x", lambda: build(c["cont"], c["cons"], p, c["shape"]), p, c["path"])
