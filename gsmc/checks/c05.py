"""C05: the tensor container mirrors the array container; its operation histories equal plain-array ones."""
import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import ATTRS, KS, Plain, check, gsdata, npy, plain_of, realistic, same, snapshot, special, unique
from gsmc.explore import Explorer
from gsmc.hist import m_ply
from gsmc import large
from gsmc.routes import ROUTES, build
from gsmc.thist import mktops, tensor

LEVEL = "model_checking"
RULE = ""
BOUND = {
    "quick": "all histories of length <=2 over 61 tensor operations from 32 initial scenes (4 SH degrees x 8 construction routes, N=3), "
             "length 3 over a 24-operation subset from 2 of them; every operation once on scenes of 8 sizes from 257 to 200,003; every conversion array->tensor->array over 23 routes x 6 mask shapes x 4 degrees x N in 0..3 x 5 option sets, and over 8 band counts of no degree x 19 routes",
    "thorough": "all histories of length <=3 over 61 operations from 32 initial scenes; length 4 over a 24-operation subset from 3; "
                "conversions with N in 0..7 and 4 value families",
}
ASSUMPTIONS = ["CPU device only (no CUDA in the sandbox): the device argument is a parameter of torch's own copy",
               "scenes of 3 Gaussians growing to at most 16 in histories: the tensor container has no size-dependent branch",
               "two histories reaching an identical object (contents, layout, aliasing, labels, masks) behave identically afterwards"]
WARM = ["t0", "t3", "np"]
INITS = ("ctor", "none", "cons", "from_np", "from_np_cons", "slice_cons", "packed", "linear", "rgb_cons")
SUBSET = ("edit:means", "edit:scales", "edit:shN", "iadd:opacities", "repl:scales", "repl:shN", "get[1:]", "get[::2]", "get[tmask]",
          "get[-1,0,0]", "clone", "consolidate", "double.float", "add(other)", "other_cons+g", "add_mask(a)", "apply_or_inplace",
          "normalize", "denormalize", "denormalize_new", "to_rgb", "to_sh_new", "save_reload", "gsdata_roundtrip")


def init(ctx, name, k):
    import gsply
    p = realistic(3, k, k + 1)
    if name == "linear":
        p.scales = np.exp(p.scales).astype(np.float32)
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        p.labels = ("linear", "linear", "sh")
        return (lambda: tensor(p)), p
    if name == "rgb_cons":
        p.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        p.labels = ("ply", "linear", "rgb")
        return (lambda: tensor(p, True)), p
    if name == "packed":
        f = ctx.path(f"init{k}.compressed.ply")
        tensor(p).save(f)
        mk = lambda: gsply.GSTensor.load(f, device="cpu")
        return mk, plain_of(mk())
    if name == "from_np":
        return (lambda: gsply.GSTensor.from_gsdata(gsdata(p), device="cpu")), p
    if name == "from_np_cons":
        return (lambda: gsply.GSTensor.from_gsdata(build("file", p, ctx), device="cpu")), p
    if name == "slice_cons":
        b = Plain(*[np.concatenate([getattr(p, a)[:1] * 2, getattr(p, a), getattr(p, a)[:1]]) for a in ATTRS], labels=p.labels)
        return (lambda: tensor(b, True)[1:4]), p
    return (lambda: tensor(p, name == "cons", name == "none")), p


def observe(ctx, g, p):
    """Everything the outside world can see of a tensor scene, without changing it."""
    before = snapshot(g)
    f = ctx.path("tobs.ply")
    g.save(f, compressed=False)
    with open(f, "rb") as h:
        raw = h.read()
    stored, ap = m_ply(p.copy())
    try:
        k, t = refs.split_uncompressed(raw)
    except refs.BadPly as e:
        need(False, "saved:not-standard", f"saved file is not standard: {e}")
    need(k == p.k and len(t) == len(p), "saved:shape", lambda: f"saved {len(t)} rows, {k} bands; expected {len(p)}, {p.k}")
    got = Plain.from_table(t)
    got.labels = stored.labels
    for a in ap:
        x, y = getattr(got, a).astype(np.float64), getattr(stored, a).astype(np.float64)
        need(bool((np.abs(x - y) <= ap[a][1] + ap[a][0] * np.abs(y)).all()), f"saved:{a}:value", lambda: f"{x[:3]} expected {y[:3]}")
        setattr(stored, a, getattr(got, a))
    same(got, stored, "saved", masks=False)
    import torch
    d = g.to_gsdata()
    check(d, p, "to_gsdata")
    same(plain_of(d.copy()), p, "to_gsdata.copy")
    same(plain_of(d[0:len(p)]), p, "to_gsdata.slice")
    same(plain_of(g.clone()), p, "cloned")
    same(plain_of(g.consolidate()), p, "consolidated")
    same(plain_of(g[0:len(p)]), p, "sliced")
    same(plain_of(g[torch.ones(len(p), dtype=torch.bool)]), p, "masked")
    same(plain_of(g.to(dtype=torch.float64)), p, "cast", dtype=None)
    u = g.to_dict()
    for a, x in zip(("means", "scales", "quats", "opacities", "sh0"), g.unpack()):
        need(np.array_equal(npy(x), getattr(p, a), equal_nan=True) and np.array_equal(npy(u[a]), getattr(p, a), equal_nan=True),
             f"unpack:{a}", "unpack()/to_dict() differ from the current attributes")
    need(snapshot(g) == before, "observing-changed-state", "saving/cloning/slicing/casting changed the scene")


# --- conversions -------------------------------------------------------------------------------

MASKS = ("none", "1d", "1d_named", "2d_unnamed", "2d_named", "2d1_named")
OPTS = ("plain", "mask", "f64", "grad", "f16", "mask_grad")
FAM = {"unique": unique, "real": realistic, "special": special}


def masked(p, m):
    n = len(p)
    c = np.stack([np.arange(n) % 2 == 0, np.arange(n) % 3 != 1], 1) if n else np.zeros((0, 2), bool)
    if m.startswith("1d"):
        return c[:, 0].copy(), (["one"] if m == "1d_named" else None)
    if m == "2d1_named":
        return c[:, :1].copy(), ["only"]
    if m.startswith("2d"):
        return c, (["x", "y"] if m == "2d_named" else None)
    return None, None


def conversion(ctx, c):
    import gsply
    import torch
    n, k, fam = c["n"], c["k"], c["fam"]
    p = FAM[fam](n, k, 2)
    p.labels = ("ply", "ply", "sh") if c["route"].startswith("file") else tuple(c.get("labels", ("ply", "ply", "sh")))
    g = build(c["route"], p, ctx)
    m, nm = masked(p, c["masks"])
    g.masks = m
    g.mask_names = nm
    if m is not None:
        p.masks, p.names = (m[:, None] if m.ndim == 1 else m).copy(), nm
    before = snapshot(g)
    sel = np.arange(n) % 3 != 0
    o, kw, want, dt = c["opt"], {}, p.copy(), np.float32
    if "mask" in o:
        kw["mask"], want = sel, want.take(sel)
    if "grad" in o:
        kw["requires_grad"] = True
    if o == "f64":
        kw["dtype"], dt = torch.float64, np.float64
    if o == "f16":
        kw["dtype"], dt = torch.float16, np.float16
        for a in ATTRS:
            with np.errstate(over="ignore", invalid="ignore"):
                setattr(want, a, getattr(want, a).astype(np.float16))
    t = gsply.GSTensor.from_gsdata(g, device="cpu", **kw)
    if "grad" in o:
        need(all(getattr(t, a).requires_grad for a in ATTRS[:5]), "requires_grad", "requested gradients are not tracked")
    tp = plain_of(t)
    same(tp, want, "from_gsdata", dtype=dt) if fam != "special" or dt == np.float32 else samef(tp, want)
    need(len(t) == len(want) and t.get_sh_degree() == {0: 0, 3: 1, 8: 2, 15: 3}.get(k, 0), "from_gsdata:len", "length or degree differ")
    if m is not None:     # dimensionality of the masks is kept
        need(npy(t.masks).ndim == m.ndim, "from_gsdata:masks:ndim", lambda: f"masks became {npy(t.masks).ndim}-D")
    need(snapshot(g) == before, "from_gsdata:source-changed", "converting changed the source scene")
    for form in ("as_is", "consolidated", "cloned", "sliced", "float"):
        x = t
        if form == "consolidated":
            x = t.consolidate()
        elif form == "cloned":
            x = t.clone()
        elif form == "sliced":
            x = t[0:]
        elif form == "float":
            x = t.float()
            if dt == np.float16:
                continue
        b = x.to_gsdata()
        bp = plain_of(b)
        if fam == "special" and dt != np.float32:
            samef(bp, want)
        else:
            same(bp, want, f"to_gsdata[{form}]", dtype=None if form == "float" else dt)
        if form == "float":
            need(bp.means.dtype == np.float32, "float:dtype", "float() did not give float32")
        if m is not None:
            need(npy(b.masks).ndim == m.ndim, "to_gsdata:masks:ndim", lambda: f"masks became {npy(b.masks).ndim}-D")
    need(plain_of(g).means.tobytes() == p.means.tobytes() and snapshot(g) == before, "source-changed", "converting changed the source scene")
    ctx.saw(tp.means.tobytes(), tp.shN.tobytes(), repr((c["masks"], tp.labels, o)))


def samef(a, b):
    for x in ATTRS:
        u, v = getattr(a, x).astype(np.float64), getattr(b, x).astype(np.float64)
        need(u.shape == v.shape and np.array_equal(u, v, equal_nan=True), f"cast:{x}", f"{x} differs after an exact cast")
    need(a.labels == b.labels, "cast:labels")


# Band counts of no SH degree: only the compressed format stores them
ODD = (1, 2, 4, 5, 7, 9, 16, 24)
ODD_ROUTES = tuple(r for r in ROUTES if r not in ("none", "file", "file_slice", "contig"))

LABS = (("ply", "ply", "sh"), ("linear", "linear", "rgb"), ("ply", "linear", "sh"), ("linear", "ply", "rgb"))


def conv_cases(tier, k, route):
    t = tier == "thorough"
    for n in range(8 if t else 4):
        for m in MASKS:
            for o in OPTS:
                for fam in (("unique", "real", "special") if t else ("unique", "special") if n == 3 else ("unique",)):
                    for lab in LABS if t or (n == 2 and o == "plain") else LABS[:1]:
                        yield {"conv": 1, "n": n, "k": k, "route": route, "masks": m, "opt": o, "fam": fam, "labels": list(lab)}


def warm(ctx, k):
    if k == "np":
        for c in conv_cases("quick", 3, "file"):
            if c["n"] == 2 and c["masks"] == "2d_named":
                ctx.case(c, conversion, ctx, c)
    else:
        mk, p = init(ctx, "from_np_cons", int(k[1:]))
        ctx.case({}, observe, ctx, mk(), p.copy())
        for path in (["denormalize", "normalize"], ["to_rgb", "to_sh"], ["packed_reload"], ["add_mask(a)", "add_mask(b)", "apply_and"], ["save_reload"]):
            Explorer(ctx, mktops(), lambda *a: None, {}).replay("x", mk, p, path)
    ctx.evaluations, ctx.violations = 0, []


def units(tier, seed):
    names = [o.name for o in mktops()]
    u = []
    deep3 = ((3, "from_np_cons"), (0, "ctor"))
    for k in KS:
        for i in INITS:
            if i == "none" and k:
                continue
            if tier == "thorough":
                u += [{"k": k, "init": i, "depth": 3, "first": names[j::4]} for j in range(4)]
            elif (k, i) in deep3:
                u += [{"k": k, "init": i, "depth": 3, "first": SUBSET[j::4], "subset": 1} for j in range(4)]
                u.append({"k": k, "init": i, "depth": 2, "first": None})
            else:
                u.append({"k": k, "init": i, "depth": 2, "first": None})
    if tier == "thorough":
        for k, i in ((3, "from_np_cons"), (0, "ctor"), (15, "cons")):
            u += [{"k": k, "init": i, "depth": 4, "first": [nm], "subset": 1} for nm in SUBSET]
    u.sort(key=lambda x: -x["depth"])
    u += [{"large": c} for c in sorted(large.cases(tier, ("cons", "lin"), sizes=(large.SMALL, large.QUICK)), key=lambda c: -c["n"] * (c["k"] + 5))]
    u += [{"conv": k, "route": r} for k in KS for r in ROUTES if not (r == "none" and k)]
    return u + [{"odd": ODD, "route": r} for r in ODD_ROUTES]


def run_unit(ctx, u):
    if "large" in u:
        large.run(ctx, u["large"], "t", mktops(), observe, full=1100)
        return
    if "odd" in u:
        for k in u["odd"]:
            for c in conv_cases(ctx.tier, k, u["route"]):
                if ctx.tier == "thorough" or c["masks"] in ("none", "2d_named"):
                    ctx.case(c, conversion, ctx, c)
                    ctx.traces += 1
        return
    if "conv" in u:
        for c in conv_cases(ctx.tier, u["conv"], u["route"]):
            ctx.case(c, conversion, ctx, c)
            ctx.traces += 1
        return
    ops = mktops()
    if u.get("subset"):
        ops = [o for o in ops if o.name in SUBSET]
    mk, p = init(ctx, u["init"], u["k"])
    Explorer(ctx, ops, observe, {"k": u["k"]}).run(u["init"], mk, p, u["depth"], u["first"])
    ctx.sample({"init": u["init"], "k": u["k"], "depth": u["depth"], "states": ctx.states})


def replay(ctx, c):
    if "large" in c:
        large.run(ctx, c, "t", mktops(), observe, full=1100)
        return
    if c.get("conv"):
        ctx.case(c, conversion, ctx, c)
        return
    mk, p = init(ctx, c["init"], c["k"])
    Explorer(ctx, mktops(), observe, {"k": c["k"]}).replay(c["init"], mk, p, c["path"])
