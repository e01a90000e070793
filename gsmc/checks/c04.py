"""C04: any history of array-container operations equals the same operations on plain arrays."""
import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import KS, gsdata, plain_of, realistic, same, snapshot
from gsmc.explore import Explorer
from gsmc.hist import m_ply, mkops
from gsmc.explore import close_sync
from gsmc import large
from gsmc.routes import build

LEVEL = "model_checking"
RULE = ""
BOUND = {
    "quick": "all histories of length <=2 over 60 operations from 40 initial scenes (4 SH degrees x 10 construction routes, N=3); "
             "length 3 from 6 of them; states deduplicated by full content+layout+aliasing fingerprint; every operation once on scenes of 15 sizes from 257 to 1,048,579 (4 degrees, 4 kinds of scene, with and without mask layers)",
    "thorough": "all histories of length <=3 over 60 operations from 40 initial scenes, length 4 over a 27-operation subset from 4",
}
ASSUMPTIONS = ["scenes of 3 Gaussians growing to at most 16: the container has no size-dependent branch in the operations explored "
               "(sizes are enumerated by C01/C02/C09)", "two histories reaching an identical object (contents, memory layout, "
               "aliasing, labels, masks) behave identically afterwards"]
WARM = ["k0", "k3", "conv", "lin", "one"]
INITS = ("ctor", "none", "cons", "file", "slice_cons", "step_cons", "mask_cons", "packed", "linear", "rgb_cons")
SUBSET = ("edit:means", "edit:scales", "edit:shN", "iadd:opacities", "repl:scales", "repl:shN", "repl:sh0", "get[1:]", "get[::-1]", "get[mask]",
          "get[-1,0,0]", "copy", "copy_slice[1:]", "consolidate", "make_contiguous", "add(other)", "other_cons+g",
          "concatenate(g,o,g)", "add_mask(a)", "apply_or_inplace", "normalize", "denormalize", "denormalize_new", "to_rgb", "to_sh_new",
          "save_reload", "tensor_roundtrip")


def init(ctx, name, k):
    import gsply
    p = realistic(3, k, k)
    if name == "linear":
        p.scales = np.exp(p.scales).astype(np.float32)
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        p.labels = ("linear", "linear", "sh")
        return (lambda: build("ctor", p, ctx)), p
    if name == "rgb_cons":
        p.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
        p.labels = ("ply", "linear", "rgb")
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
        return (lambda: build("cons", p, ctx)), p
    if name == "packed":
        blob = gsply.compress_to_bytes(gsdata(p))
        mk = lambda: gsply.decompress_from_bytes(blob)
        q = plain_of(mk())
        return mk, q
    return (lambda: build(name, p, ctx)), p


def warm(ctx, k):
    if k in ("lin", "one"):
        mk, p = init(ctx, "file", 3)
        for path in [["relabel"]] if k == "lin" else [["get_gaussian(0)", "packed_reload"], ["add(other)", "normalize_new", "get[::2]"]]:
            Explorer(ctx, mkops(), observe, {}).replay("file", mk, p, path)
    elif k == "conv":     # conversions on views
        for nm in ("file", "rgb_cons", "linear"):
            mk, p = init(ctx, nm, 3)
            for path in (["denormalize", "normalize"], ["to_rgb", "to_sh"], ["to_sh", "to_rgb"], ["get[1:]", "to_sh_new"],
                         ["add_mask(a)", "add_mask(b)", "apply_and"], ["add_mask(a)", "add_mask(b)", "apply_or_inplace"]):
                Explorer(ctx, mkops(), lambda *a: None, {}).replay(nm, mk, p, path)
    else:
        for nm in ("ctor", "file"):
            mk, p = init(ctx, nm, int(k[1:]))
            ctx.case({}, observe, ctx, mk(), p.copy())
            Explorer(ctx, mkops(), lambda *a: None, {}).replay(nm, mk, p, ["packed_reload"])
    ctx.evaluations, ctx.violations = 0, []


def observe(ctx, g, p):
    """Everything the outside world can see of a state, without changing it."""
    import gsply
    before = snapshot(g)
    f = ctx.path("obs.ply")
    gsply.plywrite(f, g)
    with open(f, "rb") as h:
        raw = h.read()
    stored, ap = m_ply(p.copy())
    try:
        k, t = refs.split_uncompressed(raw)
    except refs.BadPly as e:
        need(False, "saved:not-standard", f"saved file is not standard: {e}")
    need(k == p.k and len(t) == len(p), "saved:shape", lambda: f"saved {len(t)} rows, {k} bands; expected {len(p)}, {p.k}")
    got = type(p).from_table(t)
    got.labels = stored.labels
    for a in ap:
        x, y = getattr(got, a).astype(np.float64), getattr(stored, a).astype(np.float64)
        need(bool((np.abs(x - y) <= ap[a][1] + ap[a][0] * np.abs(y)).all()), f"saved:{a}:value", lambda: f"{x[:3]} expected {y[:3]}")
        setattr(stored, a, getattr(got, a))
    same(got, stored, "saved", masks=False)
    c = g.copy()
    same(plain_of(c), p, "copied")
    same(plain_of(g.consolidate()), p, "consolidated")
    s = g[0:len(p)]
    same(plain_of(s), p, "sliced")
    m = g[np.ones(len(p), bool)]
    same(plain_of(m), p, "masked")
    t = gsply.GSTensor.from_gsdata(g, device="cpu")
    same(plain_of(t), p, "tensor")
    kinds = {(x.flags.c_contiguous, x.flags.f_contiguous) for x in (g.means, g.scales, g.quats, g.sh0)}
    if len(p) > 1 and len(kinds) == 1 and (True, True) not in kinds and (False, True) not in kinds:
        fresh = gsdata(p)
        need(gsply.compress_to_bytes(g) == gsply.compress_to_bytes(fresh), "compressed:value",
             "the compressed bytes differ from those of the same scene built from plain arrays")
    d = g.to_dict()
    for a, x in zip(("means", "scales", "quats", "opacities", "sh0"), g.unpack()):
        need(np.array_equal(x, getattr(p, a), equal_nan=True) and np.array_equal(d[a], getattr(p, a), equal_nan=True),
             f"unpack:{a}", "unpack()/to_dict() differ from the current attributes")
    need(snapshot(g) == before, "observing-changed-state", "saving/copying/slicing/compressing changed the scene")


def groups(names, n):
    return [names[i::n] for i in range(n)]


def units(tier, seed):
    names = [o.name for o in mkops()]
    u = []
    for k in KS:
        for i in INITS:
            if (i == "none" and k) or (tier == "quick" and (k, i) in ((3, "file"), (0, "cons"))):
                continue
            if tier == "thorough":
                for g in groups(names, 4):
                    u.append({"k": k, "init": i, "depth": 3, "first": g})
            else:
                u.append({"k": k, "init": i, "depth": 2, "first": None})
    if tier == "quick":
        for k, i in ((3, "file"), (0, "cons")):
            for g in groups(names, 8):
                u.append({"k": k, "init": i, "depth": 3, "first": g})
    else:
        for k, i in ((3, "file"), (0, "file"), (15, "cons"), (8, "ctor")):
            for nm in SUBSET:
                u.append({"k": k, "init": i, "depth": 4, "first": [nm], "subset": 1})
    return sorted(u, key=lambda x: -x["depth"]) + [{"large": c} for c in sorted(large.cases(tier), key=lambda c: -c["n"] * (c["k"] + 5))]


def run_unit(ctx, u):
    if "large" in u:
        large.run(ctx, u["large"], "np", mkops(), observe)
        return
    ops = mkops()
    if u.get("subset"):
        ops = [o for o in ops if o.name in SUBSET]
    mk, p = init(ctx, u["init"], u["k"])
    Explorer(ctx, ops, observe, {"k": u["k"]}).run(u["init"], mk, p, u["depth"], u["first"])
    ctx.sample({"init": u["init"], "k": u["k"], "depth": u["depth"], "states": ctx.states})


def replay(ctx, c):
    if "large" in c:
        large.run(ctx, c, "np", mkops(), observe)
        return
    mk, p = init(ctx, c["init"], c["k"])
    Explorer(ctx, mkops(), observe, {"k": c["k"]}).replay(c["init"], mk, p, c["path"])
