"""C10: concatenation is ordered, complete, consistent and independent of the grouping."""
import functools
import itertools
import operator

import numpy as np

from gsmc.core import need
from gsmc.data import ATTRS, KS, Plain, gsdata, npy, plain_of, realistic, same, snapshot, unique
from gsmc.explore import fingerprint
from gsmc.routes import ROUTES
from gsmc.thist import tensor
from gsmc.checks.c09 import make

LEVEL = "model_checking"
RULE = ""
BOUND = {
    "quick": "every list of length <=4 over 7 scenes (sizes 0..3, 7 construction routes, 6 mask shapes) x every binary grouping x 4 degrees x 2 unit labellings x 2 "
             "containers, plus sum/reduce/bulk of every list; every ordered pair of 23 routes x 4 degrees; every ordered pair of 9 mask shapes x 4 size pairs x 4 "
             "representation pairs; every mismatch of units or degree at every position of a list of <=5 (and the last of 12); sizes to 100,003 (7 pairs, 3 longer lists); every pair of 10 and "
             "triple of 7 array kinds (single/half/double/integer arrays, with and without a base array), and one attribute of another type",
    "thorough": "lists of length <=5; 3 unit labellings; route triples; sizes to 100000",
}
ASSUMPTIONS = ["CPU device", "bulk concatenation returns no masks (documented), so masks are compared for pairwise results only", "tensor scenes of differing "
               "dtypes hold values exact in both (the sum has the first operand's dtype)"]
WARM = ["np", "t"]
LABELS = (("ply", "ply", "sh"), ("linear", "linear", "rgb"), ("ply", "linear", "rgb"))
MS = ("none", "1d", "1d_named", "n1", "n1_named", "n2", "n2_named", "n2_named_other", "n3_named")


def with_masks(p, m, salt=0):
    n = len(p)
    if m == "none":
        p.masks = p.names = None
        return p
    L = 1 if m[0] == "1" or m[1] == "1" else int(m[1])
    i = np.arange(n) + salt
    p.masks = np.stack([i % 2 == 1, i % 3 != 1, i % 4 == 0][:L], 1)
    if "named" in m:
        p.names = (["c", "d"] if "other" in m else ["a", "b", "c"])[:L]
    return p


def mk(ctx, cont, route, p, m):
    import torch
    q = p.copy()
    q.masks = q.names = None
    g = make(ctx, cont, route, q, "none")
    if p.masks is not None:
        x = (p.masks[:, 0] if m.startswith("1d") else p.masks).copy()
        g.masks = torch.from_numpy(x) if cont == "t" else x
        g.mask_names = None if p.names is None else list(p.names)
    return g


def m_cat(l, r):
    q = Plain(*[np.concatenate([getattr(x, a) for x in (l, r)]) for a in ATTRS], labels=l.labels)
    if l.masks is None and r.masks is None:
        return q
    L = (l.masks if l.masks is not None else r.masks).shape[1]
    lm = np.zeros((len(l), L), bool) if l.masks is None else l.masks
    rm = np.zeros((len(r), L), bool) if r.masks is None else r.masks
    if lm.shape[1] == rm.shape[1]:
        q.masks = np.concatenate([lm, rm])
        nm = l.names if l.names is not None else r.names
        q.names = None if nm is None else list(nm)
    return q


# --- lists and groupings --------------------------------------------------------------------------

NPPAL = (("ctor", 2, "none"), ("cons", 1, "n1_named"), ("slice_cons", 0, "n2"), ("file", 3, "n2_named"), ("step_cons", 2, "1d"), ("none", 1, "none"),
         ("half_open", 2, "n2_named_other"))
TPAL = (("ctor", 2, "none"), ("cons", 1, "n1_named"), ("slice_cons", 0, "n2"), ("from_np_cons", 3, "n2_named"), ("step_cons", 2, "1d"), ("none", 1, "none"),
        ("mask_cons", 2, "n2_named_other"))


def palette(ctx, cont, k, labels):
    out = []
    for i, (r, n, m) in enumerate(NPPAL if cont == "np" else TPAL):
        if r == "none" and k:
            r = "contig" if cont == "np" else "slice"
        p = unique(n, k, 20 + i)
        p.labels = labels
        with_masks(p, m, i)
        out.append((mk(ctx, cont, r, p, m), p))
    return out


def show(c, w, t):
    return {**c, "list": list(w), "tree": t}


def trees(ctx, c):
    """All lists, all groupings, by dynamic programming over sub-lists (shared operands are real reused objects)."""
    import gsply
    pal = palette(ctx, c["cont"], c["k"], tuple(c["labels"]))
    before = [snapshot(g) for g, _ in pal]
    memo = {(i,): [(g, p, i)] for i, (g, p) in enumerate(pal)}
    seen = set()
    for L in range(2, c["L"] + 1):
        for w in itertools.product(range(len(pal)), repeat=L):
            if L == c["L"] and w[0] not in c["first"]:
                continue
            res = []
            for cut in range(1, L):
                for gl, pl, tl in memo[w[:cut]]:
                    for gr, pr, tr in memo[w[cut:]]:
                        t = [tl, tr]
                        ctx.beat(show(c, w, t))
                        ctx.evaluations += 1
                        ctx.transitions += 1
                        ctx.traces += 1
                        q = m_cat(pl, pr)
                        g = gl + gr if (cut + L) % 2 else gl.add(gr)
                        got = plain_of(g)
                        try:
                            same(got, q, "add")
                            need(g.format_state == pal[0][0].format_state, "add:format", lambda: str(g.format_state))
                        except Exception as e:
                            ctx.violation(getattr(e, "key", "add"), getattr(e, "msg", str(e)), show(c, w, t))
                            return
                        fp = fingerprint(g)
                        if fp not in seen:
                            seen.add(fp)
                            ctx.states += 1
                            ctx.saw(fp)
                        res.append((g, q, t))
            if L < c["L"]:
                memo[w] = res
            flat = Plain(*[np.concatenate([getattr(pal[i][1], a) for i in w]) for a in ATTRS], labels=pal[0][1].labels)
            gs = [pal[i][0] for i in w]
            ctx.case(show(c, w, "bulk"), nary, ctx, c["cont"], gs, flat, [pal[i][1] for i in w])
            if ctx.violations:
                return
    need([snapshot(g) for g, _ in pal] == before, "sources-changed", "concatenating changed an input")


def nary(ctx, cont, gs, flat, ps):
    import gsply
    ctx.transitions += 3
    ctx.traces += 3
    want = functools.reduce(m_cat, ps)
    same(plain_of(sum(gs)), want, "sum")
    same(plain_of(functools.reduce(operator.add, gs)), want, "reduce")
    if cont == "np":
        r = gsply.GSData.concatenate(gs)
        same(plain_of(r), flat, "concatenate", masks=False)
        need(r.masks is None and r.mask_names is None, "concatenate:masks", "bulk concatenation invented masks")
        need(r.format_state == gs[0].format_state, "concatenate:format")
        if len(gs) > 1:
            r = gsply.GSData.concatenate(tuple(gs))
            same(plain_of(r), flat, "concatenate(tuple)", masks=False)
    else:
        r = sum(gs[1:], gs[0])
        same(plain_of(r), want, "sum(start)")


# --- pairs -----------------------------------------------------------------------------------------

TROUTES = ("ctor", "none", "cons", "slice", "slice_cons", "step_cons", "mask_cons", "from_np", "from_np_cons", "double")


def pair(ctx, c):
    """One ordered list of (route, size, masks) descriptions concatenated every way."""
    ps, gs = [], []
    for i, (r, n, m) in enumerate(c["items"]):
        p = unique(n, c["k"], 40 + i)
        p.labels = tuple(c["labels"])
        with_masks(p, m, i)
        ps.append(p)
        gs.append(mk(ctx, c["cont"], r, p, m))
    before = [snapshot(g) for g in gs]
    want = functools.reduce(m_cat, ps)
    flat = want.copy()
    dt = None if any(r == "double" for r, _, _ in c["items"]) else np.float32
    ctx.transitions += 1
    ctx.traces += 1
    if len(gs) == 2:
        for nm, f in (("add", lambda: gs[0].add(gs[1])), ("+", lambda: gs[0] + gs[1])):
            r = f()
            got = plain_of(r)
            if dt is None:
                want2 = want.copy()
                for a in ATTRS:
                    setattr(want2, a, getattr(want, a).astype(getattr(got, a).dtype))
                same(got, want2, nm, dtype=None)
                need(len({str(x.dtype) for x in got.arrays()}) == 1 and str(got.means.dtype) == str(npy(gs[0].means).dtype), f"{nm}:dtype",
                     lambda: str([str(x.dtype) for x in got.arrays()]))
            else:
                same(got, want, nm)
            need(len(r) == len(want) and r.get_sh_degree() == {0: 0, 3: 1, 8: 2, 15: 3}[c["k"]], f"{nm}:len-degree")
            if r.masks is not None and c["deep"]:       # the stacked masks work as masks
                for mode in ("and", "or"):
                    x = npy(r.combine_masks(mode))
                    w = want.masks.all(1) if mode == "and" else want.masks.any(1)
                    need(bool((x == w).all()), f"{nm}:combine", f"{x} expected {w}")
    if dt is not None and c["deep"]:
        nary(ctx, c["cont"], gs, flat, ps)
    need([snapshot(g) for g in gs] == before, "sources-changed", "concatenating changed an input")
    fp = fingerprint(gs[0])
    ctx.saw(fp, c)
    ctx.states += 1


def pair_cases(tier, w):
    th = tier == "thorough"
    if w == "routes":
        for cont, routes in (("np", ROUTES), ("t", TROUTES)):
            for a, b in itertools.product(routes, routes):
                for k in KS:
                    if k and "none" in (a, b):
                        continue
                    for la in LABELS[:1]:
                        yield {"cont": cont, "k": k, "labels": la, "deep": k == 3, "items": [[a, 2, "none"], [b, 3, "n1_named"]]}
            if th:
                for t in itertools.product([r for r in routes if r not in ("none", "double")], repeat=3):
                    yield {"cont": cont, "k": 3, "labels": LABELS[0], "deep": True, "items": [[r, 1 + i, "none"] for i, r in enumerate(t)]}
    elif w == "masks":
        for cont in ("np", "t"):
            for a, b in itertools.product(MS, MS):
                for na, nb in ((2, 3), (0, 2), (2, 0), (0, 0)):
                    for ra, rb in itertools.product(("ctor", "cons"), repeat=2):
                        for k in (0, 3) if not th else KS:
                            yield {"cont": cont, "k": k, "labels": LABELS[1], "deep": True, "items": [[ra, na, a], [rb, nb, b]]}
    else:
        for cont in ("np", "t"):
            for na, nb in ((257, 300), (5000, 1), (1, 5000), (4096, 4096), (10007, 10007), (1, 100003), (65537, 33000)) + (((100000, 65537), (65536, 65536), (200003, 3)) if th else ()):
                for ra, rb in itertools.product(("ctor", "cons"), repeat=2):
                    for k in (0, 15):
                        if k == 0 or th or na + nb < 30000:
                            yield {"cont": cont, "k": k, "labels": LABELS[0], "deep": True, "items": [[ra, na, "n2_named"], [rb, nb, "n2_named"]]}
            for ns in ((40000, 40000, 40000), (9000, 1, 3000, 0, 5000), (1, 70000, 2)) + (((3000,) * 20,) if th else ()):
                for r in ("ctor", "cons"):
                    for k in (0, 3):
                        yield {"cont": cont, "k": k, "labels": LABELS[0], "deep": True, "items": [[r, n, "n2_named"] for n in ns]}


# --- rejection --------------------------------------------------------------------------------------

def reject(ctx, c):
    """A list in which exactly one scene differs in units or degree must be rejected by every route, changing nothing."""
    import gsply
    gs = []
    for i in range(c["m"]):
        bad = i == c["at"]
        p = realistic(c["n"], c["kb"] if bad else c["k"], i)
        p.labels = tuple(c["lb"] if bad else c["la"])
        g = tensor(p, False, bool(c.get("none"))) if c["cont"] == "t" else gsdata(p, shn_none=bool(c.get("none")))
        gs.append(g.consolidate() if c["cons"] else g)
    before = [snapshot(g) for g in gs]

    def must(f, what):
        ctx.transitions += 1
        ctx.traces += 1
        try:
            r = f()
        except ValueError:
            return
        need(False, f"mixed:{what}", lambda: f"{what} accepted degree {c['k']}/{c['kb']} labels {c['la']}/{c['lb']}: {len(r)} Gaussians")
    must(lambda: sum(gs), "sum")
    must(lambda: functools.reduce(lambda a, b: a.add(b), gs), "add")
    if c["cont"] == "np":
        must(lambda: gsply.GSData.concatenate(gs), "concatenate")
    need([snapshot(g) for g in gs] == before, "rejected-but-changed", "a rejected concatenation changed an input")
    ctx.saw(c)


def reject_cases(tier):
    U = list(itertools.product(("ply", "linear"), ("ply", "linear"), ("sh", "rgb")))
    for cont in ("np", "t"):
        for cons in (False, True):
            for n in (2, 0):
                for m, at in [(m, at) for m in (2, 3, 5) for at in range(m)] + [(12, 11)]:
                    for k, kb in itertools.product(KS, KS):
                        if k != kb:
                            yield dict(cont=cont, cons=cons, n=n, m=m, at=at, k=k, kb=kb, la=U[0], lb=U[0])
                            if 0 in (k, kb):
                                yield dict(cont=cont, cons=cons, n=n, m=m, at=at, k=k, kb=kb, la=U[0], lb=U[0], none=1)
                    for a, b in itertools.product(U, U):
                        if a != b:
                            yield dict(cont=cont, cons=cons, n=n, m=m, at=at, k=3 if m == 2 else 0, kb=3 if m == 2 else 0, la=a, lb=b)


def misc(ctx, c):
    import gsply
    try:
        gsply.GSData.concatenate([])
        need(False, "empty-list", "concatenate([]) returned a scene")
    except ValueError:
        pass
    for k in KS:
        p = unique(3, k)
        for g in (gsdata(p), gsdata(p).consolidate()):
            same(plain_of(gsply.GSData.concatenate([g])), p, "concatenate([x])")
            same(plain_of(sum([g])), p, "sum([x])")
            same(plain_of(gsply.GSData.concatenate([g, g, g])), functools.reduce(m_cat, [p] * 3), "concatenate([x,x,x])")
            same(plain_of(g + g), m_cat(p, p), "x+x")
        for t in (tensor(p), tensor(p, True)):
            same(plain_of(sum([t])), p, "sum([t])")
            same(plain_of(t + t), m_cat(p, p), "t+t")


# --- parts of different precision -----------------------------------------------------------------

TYPES = ("<f4", "<f8", "<f2", "<i4", "<i8", ">f4", "<u1")


def typed(n, k, salt, dts, base):
    """A scene whose attributes have the given dtypes, with values that only that dtype holds; and its values as float64."""
    import gsply
    p = unique(n, k, salt)
    vals = []
    for a, dt in zip(ATTRS, dts):
        x = getattr(p, a).astype(np.float64)
        if dt[1] == "i":
            x = np.trunc(x) * 3 + (2 ** 24 if dt == "<i4" else 0)
        elif dt[1] == "u":
            x = np.abs(np.trunc(x)) % 251
        elif dt == "<f8":
            x = x + 2.0 ** -40
        vals.append(x.astype(dt))
    f = gsdata(unique(0, k)).format_state
    if base:    # one base array of that precision
        t = gsply.GSTensor.from_gsdata(gsply.GSData(*[v.astype(np.float32) for v in vals], _format=f), device="cpu").consolidate()
        g = {"<f8": t.double, "<f2": t.half, "<f4": t.float}[dts[0]]().to_gsdata()
        vals = [np.zeros((n, 0, 3)) if getattr(g, a) is None else np.array(getattr(g, a)) for a in ATTRS]
        need(g._base is None or g._base.dtype == np.dtype(dts[0]), "typed:base")
    else:
        g = gsply.GSData(*[v.copy() for v in vals], _format=f)
    return g, [v.astype(np.float64) for v in vals]


def types(ctx, c):
    import gsply
    gs, vs = zip(*[typed(n, c["k"], 3 * i + 1, dts if isinstance(dts, list) else [dts] * 6, b) for i, (n, dts, b) in enumerate(c["typed"])])
    before = [snapshot(g) for g in gs]
    want = [np.concatenate(x) for x in zip(*vs)]

    def ok(r, what):
        for a, w in zip(ATTRS, want):
            x = getattr(r, a)
            x = np.zeros(w.shape) if x is None and not w.size else np.asarray(x, np.float64)
            need(x.shape == w.shape, f"types:{what}:{a}:shape", lambda: f"{x.shape} expected {w.shape}")
            e = np.argwhere(x != w)
            need(not len(e), f"types:{what}:{a}:value", lambda: f"{a}{e[0].tolist()} is {x[tuple(e[0])]!r}, expected {w[tuple(e[0])]!r}")
    ok(functools.reduce(operator.add, gs), "add")
    ok(sum(gs), "sum")
    ok(gsply.GSData.concatenate(list(gs)), "concatenate")
    if len(gs) == 3:
        ok(gs[0] + (gs[1] + gs[2]), "add-right")
    need([snapshot(g) for g in gs] == before, "sources-changed", "concatenating changed an input")
    ctx.transitions += 3
    ctx.traces += 3
    ctx.states += 1
    ctx.saw(c)


def type_cases(tier):
    kinds = [(t, False) for t in TYPES] + [("<f8", True), ("<f2", True), ("<f4", True)]
    for k in KS:
        for (a, ba), (b, bb) in itertools.product(kinds, kinds):
            for na, nb in ((2, 3), (0, 2), (2, 0)):
                yield {"k": k, "typed": [[na, a, ba], [nb, b, bb]]}
        for t in itertools.product([x for x in kinds if x[0] not in ("<i8", "<u1", ">f4")], repeat=3):
            if k in (0, 3) or tier == "thorough":
                yield {"k": k, "typed": [[2, a, b] for a, b in t]}
        for i in range(6):           # one attribute of one part has another type than the rest
            for dt in TYPES[1:]:
                for at in (0, 1, 2):
                    yield {"k": k, "typed": [[2, [dt if (j == i and s == at) else "<f4" for j in range(6)], False] for s in range(3)]}


def dispatch(ctx, c):
    if "typed" in c:
        return ctx.case(c, types, ctx, c)
    if "items" in c:
        return ctx.case(c, pair, ctx, c)
    if "la" in c:
        return ctx.case(c, reject, ctx, c)
    if "misc" in c:
        return ctx.case(c, misc, ctx, c)
    return ctx.case(c, trees, ctx, c)


def units(tier, seed):
    th = tier == "thorough"
    u = [{"w": x} for x in ("masks", "reject", "routes", "size", "types")]
    u = [{**x, "part": i, "of": 4} for x in u for i in range(4)]
    t = []
    for cont in ("np", "t"):
        for k in KS:
            for la in LABELS if th else LABELS[:2]:
                for f in range(7) if th else (0, 2, 4):
                    t.append({"w": "trees", "cont": cont, "k": k, "labels": list(la), "L": 5 if th else 4,
                              "first": [f] if th else [[0, 1], None, [2, 3], None, [4, 5, 6]][f]})
    return t + u + [{"w": "misc"}]


def run_unit(ctx, u):
    if u["w"] == "trees":
        c = {k: v for k, v in u.items() if k != "w"}
        dispatch(ctx, c)
        ctx.sample({**c, "states": ctx.states, "adds": ctx.transitions})
    elif u["w"] == "misc":
        dispatch(ctx, {"misc": 1})
    else:
        it = reject_cases(ctx.tier) if u["w"] == "reject" else type_cases(ctx.tier) if u["w"] == "types" else pair_cases(ctx.tier, u["w"])
        for i, c in enumerate(it):
            if i % u["of"] == u["part"]:
                dispatch(ctx, c)
                if i < 8:
                    ctx.sample(c)


def warm(ctx, cont):
    for k in (0, 3):
        for it in ([["cons", 2, "n2_named"], ["cons", 1, "n2"]], [["ctor", 2, "n2"], ["cons", 1, "n1"]]):
            dispatch(ctx, {"cont": cont, "k": k, "labels": LABELS[0], "deep": True, "items": it})
    ctx.evaluations = ctx.states = ctx.transitions = ctx.traces = 0
    ctx.violations = []
    ctx.distinct.clear()


def replay(ctx, c):
    if "tree" in c and c["tree"] != "bulk":
        pal = palette(ctx, c["cont"], c["k"], tuple(c["labels"]))

        def ev(t):
            if isinstance(t, int):
                return pal[t]
            (gl, pl), (gr, pr) = ev(t[0]), ev(t[1])
            g, q = gl + gr, m_cat(pl, pr)
            same(plain_of(g), q, "add")
            return g, q
        ctx.case(c, ev, c["tree"])
        return
    if "list" in c:
        pal = palette(ctx, c["cont"], c["k"], tuple(c["labels"]))
        ps = [pal[i][1] for i in c["list"]]
        flat = Plain(*[np.concatenate([getattr(p, a) for p in ps]) for a in ATTRS], labels=ps[0].labels)
        ctx.case(c, nary, ctx, c["cont"], [pal[i][0] for i in c["list"]], flat, ps)
        return
    dispatch(ctx, c)
