"""C06: units labels are truthful and saving respects them."""
import itertools
import os

import numpy as np

from gsmc import refs
from gsmc.codec import _file, cpu_writers, readers
from gsmc.core import need
from gsmc.data import ATTRS, DEG, KS, Plain, fmt, gsdata, labels_of, npy, order_of, plain_of, realistic, same, snapshot
from gsmc.explore import Explorer, Op
from gsmc.hist import exact, m_denorm, m_norm, m_ply, m_rgb, m_sh
from gsmc import large
from gsmc.packed import check_decoded
from gsmc.thist import m_tdenorm, tensor

LEVEL = "exploration"
RULE = ("a state counts once per distinct (attribute bits, labels, container, representation); a rejection case counts once per "
        "(container, route, labels pair, SH degree pair, sizes)")
BOUND = {
    "quick": "8 unit combinations x 4 SH degrees x 2 value families x 2 containers x 2 representations x all conversion sequences of "
             "length <=3 (<=2 for degrees 2 and 3; 18 and 14 operations), every state saved through 3-4 writers, the initial ones through all; every conversion once on scenes of 1025 to 100,003 Gaussians; every pair of (8 units x 4 degrees) through "
             "every combining route; every reader on files whose values look like other units; every conversion of scenes of 11 number types (half to double, "
             "big-endian, integer; with and without a base array) up to and beyond the clamps",
    "thorough": "the same with sequences of length <=5 (degree 1) or 4 and all writers (17 CPU, 5 tensor) at every state",
}
ASSUMPTIONS = ["to_rgb on a scene already labelled RGB (and to_sh on SH) applies the formula unconditionally as documented for unlabelled "
               "data; only conversions from the other label are explored", "sh labels supplied by the caller are taken as true initially"]
WARM = ["k0", "k3", "t"]
COMBOS = list(itertools.product(("ply", "linear"), ("ply", "linear"), ("sh", "rgb")))


def physical(fam, k):
    """A scene in PLY units (the ground truth)."""
    p = realistic(6, k, 3)
    return p


def initial(fam, k, lab):
    p = physical(fam, k)
    if lab[0] == "linear":
        p.scales = np.exp(p.scales).astype(np.float32)
    if lab[1] == "linear":
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
    if lab[2] == "rgb":
        p.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
    if fam == "edge":
        s = ((-50, -20.8, -9.3, 0, 4.7, 30) if lab[0] == "ply" else (0, 1e-12, 1e-9, 1e-4, 1, 5000))
        o = ((-30, -9.3, -9.2, 0, 9.3, 25) if lab[1] == "ply" else (0, 1e-5, 1e-4, 0.5, 1 - 1e-4, 1))
        p.scales = np.array([np.roll(s, i) for i in range(3)], np.float32).T.copy()
        p.opacities = np.array(o, np.float32)
    p.labels = tuple(lab)
    return p


def build(cont, rep, p):
    if cont == "np":
        g = gsdata(p)
        return g.consolidate() if rep == "cons" else g
    return tensor(p, rep == "cons")


def mkops(cont):
    import gsply
    nz = lambda p: len(p) > 0
    den = m_denorm if cont == "np" else m_tdenorm
    sh, rgb = (lambda p: p.labels[2] == "sh"), (lambda p: p.labels[2] == "rgb")
    o = []

    def add(name, lib, model, ok=None):
        o.append(Op(name, lib, model, ok))
    for new in (False, True):
        x = "_new" if new else ""
        kw = {"inplace": not new}
        add("normalize" + x, (lambda kw: lambda g, c: g.normalize(**kw))(kw), m_norm)
        add("denormalize" + x, (lambda kw: lambda g, c: g.denormalize(**kw))(kw), den)
        add("to_rgb" + x, (lambda kw: lambda g, c: g.to_rgb(**kw))(kw), m_rgb, sh)
        add("to_sh" + x, (lambda kw: lambda g, c: g.to_sh(**kw))(kw), m_sh, rgb)
    add("consolidate", lambda g, c: g.consolidate(), exact(lambda p: None))
    add("[1:]", lambda g, c: (g[1:].copy() if cont == "np" else g[1:].clone()), lambda p: (p.take(slice(1, None)), {}))


    def twin(conv_twin):
        def lib(g, c):
            p = plain_of(g)
            p.labels = ("ply", "ply", "sh")
            x = gsdata(p) if cont == "np" else tensor(p)
            x.copy_format_from(g)
            z = x if conv_twin else g
            lab = labels_of(z)
            (z.denormalize if lab[0] == "ply" else z.normalize)()
            (z.to_rgb if lab[2] == "sh" else z.to_sh)()
            return g if conv_twin else x
        return lib
    # a scene that took over the labels of another one: converting either leaves the other's labels true
    add("labels_taken", twin(True), exact(lambda p: None))
    add("labels_from", twin(False), exact(lambda p: None))
    if cont == "np":
        add("tensor", lambda g, c: gsply.GSTensor.from_gsdata(g, device="cpu").to_gsdata().copy(), exact(lambda p: None))
        for new in (False, True):       # documented: activation takes PLY units to linear ones, deactivation back
            x, kw = ("_new" if new else ""), {"inplace": not new}
            add("activate" + x, (lambda kw: lambda g, c: gsply.apply_pre_activations(g, **kw))(kw), m_denorm, lambda p: p.labels[:2] == ("ply", "ply"))
            add("deactivate" + x, (lambda kw: lambda g, c: gsply.apply_pre_deactivations(g, **kw))(kw), m_norm, lambda p: p.labels[:2] == ("linear", "linear"))
        add("g+g", lambda g, c: g + g.copy(), lambda p: (p.take(np.r_[0:len(p), 0:len(p)]), {}), lambda p: len(p) < 7)
    else:
        add("to_ply_tensor", lambda g, c: g.to_ply_tensor(), m_norm)
        add("g+g", lambda g, c: g + g.clone(), lambda p: (p.take(np.r_[0:len(p), 0:len(p)]), {}), lambda p: len(p) < 7)
    return o


def stored_check(ctx, raw, q, what, packed, slack=0.0):
    """`raw` must store scene q (its own labels) in PLY units."""
    want, ap = m_ply(q.copy())
    try:
        if packed:
            d = refs.unpack(*refs.split_packed(raw))
            got = Plain(*[d[a].astype(np.float32) for a in ATTRS])
        else:
            k, t = refs.split_uncompressed(raw)
            got = Plain.from_table(t)
    except refs.BadPly as e:
        need(False, f"{what}:format", str(e))
    if packed:
        if "opacities" in ap:      # clamped probabilities are compared with the clamp's own rounding
            pass
        check_decoded(got, want, what, slack=slack + 1e-3, k=True)
        return
    for a in ATTRS:
        x, y = getattr(got, a), getattr(want, a)
        need(x.shape == y.shape, f"{what}:{a}:shape", lambda: f"{x.shape} expected {y.shape}")
        if a in ap:
            r, t = ap[a] if a != "quats" else (2e-5, 2e-5)
            need(bool((np.abs(x.astype(np.float64) - y) <= t + r * np.abs(y)).all()), f"{what}:{a}:value",
                 lambda: f"stored {x.ravel()[:6]}, the scene's PLY-unit value is {y.ravel()[:6]}")
        else:
            need(x.tobytes() == np.ascontiguousarray(y).tobytes(), f"{what}:{a}:value",
                 lambda: f"{a} is already in PLY units but was stored differently: {x.ravel()[:4]} vs {y.ravel()[:4]}")


QUICK_W = ("flag", "save_ext", "bytes", "arrays")
TRUE_W = ("flag", "flag_noext", "ext", "ext2", "flag+ext", "save", "save_ext", "bytes", "arrays")    # writers that see labels


def writers(cont, thorough):
    import gsply
    from gsply.writer import write_uncompressed
    cw = cpu_writers()

    def un(fn):
        def f(c, g):
            o = c.path("u.ply")
            if os.path.exists(o):
                os.unlink(o)
            fn(o, g)
            with open(o, "rb") as h:
                return h.read()
        return f
    w = {"plywrite": (un(gsply.plywrite), 0)}
    if cont == "np":
        w["GSData.save"] = (un(lambda o, g: g.save(o)), 0)
        w["write_uncompressed"] = (un(lambda o, g: write_uncompressed(o, g)), 0)
        for n in (TRUE_W if thorough else QUICK_W):
            w[n] = (cw[n], 1)
    else:
        from gsmc.codec import tensor_writers
        tw = tensor_writers()
        w["t.save(compressed=False)"] = (un(lambda o, g: g.save(o, compressed=False)), 0)
        for n in (tw if thorough else ("t.save", "plywrite_gpu")):
            w[n] = (tw[n], 2)
        w["plywrite(compressed)"] = (lambda c, g: cw["flag"](c, g), 1)
        if thorough:
            w["plywrite(ext)"] = (lambda c, g: cw["ext"](c, g), 1)
    return w


def observe_in(cont, fam, k):
    def observe(ctx, g, p):
        need(order_of(g) == DEG[p.k] and g.get_sh_degree() == DEG[p.k], "label:sh_order",
             lambda: f"SH order label {order_of(g)}, degree {g.get_sh_degree()}, bands {p.k}")
        if fam == "real":      # labels + values still describe the same physical scene
            want = physical(fam, k)
            have, _ = m_ply(plain_of(g))
            rows = len(want)
            idx = [int(np.argmin(np.abs(want.means - m).sum(1))) for m in have.means]
            for a, tol in (("scales", 2e-4), ("opacities", 2e-3), ("sh0", 2e-4)):
                d = np.abs(getattr(have, a).astype(np.float64) - getattr(want, a)[idx])
                need(bool((d <= tol).all()), f"label:{a}:untruthful",
                     lambda: f"{a} labelled {labels_of(g)} decodes {d.max()} away from the physical scene of {rows} Gaussians")
        before = snapshot(g)
        ws = writers(cont, ctx.thorough)
        if not ctx.thorough and ctx.states:     # every packed writer sees every initial label state; later states rotate over them
            pk = [n for n in ws if ws[n][1]]
            ws = {n: w for n, w in ws.items() if not w[1] or n == pk[ctx.states % len(pk)]}
        for name, (fn, packed) in ws.items():
            ctx.beat()
            raw = fn(ctx, g)
            stored_check(ctx, raw, plain_of(g), f"stored[{cont}:{name}]", packed, 0.51 if packed == 2 else 0.0)
            need(snapshot(g) == before, f"saving-changed:{name}", "saving changed the scene")
    return observe


def cast(ctx, c):
    """Half and double precision tensors: every writer stores the same scene in PLY units (to the precision of the cast)."""
    import torch
    p = initial("real", c["k"], c["lab"])
    t = tensor(p, c["cons"], dtype=getattr(torch, c["dtype"]))
    for name, (fn, packed) in writers("t", True).items():
        raw = fn(ctx, t)
        ctx.evaluations += 1
        if packed:
            d = refs.unpack(*refs.split_packed(raw))
        else:
            k, tab = refs.split_uncompressed(raw)
            q = Plain.from_table(tab)
            d = {a: getattr(q, a) for a in ATTRS}
        want, _ = m_ply(p.copy())
        for a in ATTRS:
            x, y = np.asarray(d[a], np.float64), getattr(want, a).astype(np.float64)
            if a == "quats":
                x = x * np.where((x * y).sum(1, keepdims=True) < 0, -1, 1)
            tol = 0.035 + 0.01 * np.abs(y)
            if packed and a == "opacities":      # stored as a probability in steps of 1/255
                need(x.shape == y.shape and bool((np.abs(refs.sigmoid(x) - refs.sigmoid(y)) <= 0.52 / 255 + 0.003).all()), f"cast:{name}:{a}",
                     lambda: f"{c['dtype']} tensor labelled {c['lab']}: stored {a} {x.ravel()[:4]}, expected {y.ravel()[:4]}")
                continue
            need(x.shape == y.shape and bool((np.abs(x - y) <= tol).all()), f"cast:{name}:{a}",
                 lambda: f"{c['dtype']} tensor labelled {c['lab']}: stored {a} {x.ravel()[:4]}, expected {y.ravel()[:4]}")
    ctx.saw("cast", c)


EPS = {"f2": 2.0 ** -10, "f4": 2e-6, "f8": 2e-6, ">f4": 2e-6, ">f8": 2e-6, "i4": 2e-6, "i8": 2e-6, "float16": 2.0 ** -10, "bfloat16": 2.0 ** -7,
       "float32": 2e-6, "float64": 2e-6}
FORMULA = {"normalize": {"scales": (0, "ply", lambda x: np.log(np.maximum(x, 1e-9))),
                         "opacities": (1, "ply", lambda x: (lambda c: np.log(c / (1 - c)))(np.clip(x, 1e-4, 1 - 1e-4)))},
           "denormalize": {"scales": (0, "linear", np.exp), "opacities": (1, "linear", lambda x: refs.sigmoid(x))},
           "to_rgb": {"sh0": (2, "rgb", lambda x: x * refs.C0 + 0.5)}, "to_sh": {"sh0": (2, "sh", lambda x: (x - 0.5) / refs.C0)}}


def typed_convert(ctx, c):
    """Unit conversions of scenes of every number type, up to and beyond the clamps: the documented formula, in place or not."""
    import gsply
    import torch
    lab = tuple(c["lab"])
    p = realistic(12, 3, 5)
    p.labels = lab
    v = np.array([0, 1e-12, 1e-9, 1e-5, 1e-4, 0.02, 0.3, 0.5, 0.9, 0.9999, 0.99999, 1.0])
    p.opacities = (v if lab[1] == "linear" else (v - 0.5) * 26).astype(np.float32)
    p.scales = np.stack([v, v[::-1] * 3, v * 0 + 7], 1).astype(np.float32) if lab[0] == "linear" else np.stack([v * -9, v * 3, v * 0 - 5], 1).astype(np.float32)
    p.sh0 = np.stack([v, v[::-1], 1 - v], 1).astype(np.float32) if lab[2] == "rgb" else (np.stack([v, v[::-1], 1 - v], 1) * 4 - 2).astype(np.float32)
    if c["dtype"][0] == "i":
        p.quats = np.round(p.quats * 4)
    fs = gsdata(p).format_state
    if c["cont"] == "t":
        g = tensor(p, c["cons"], dtype=getattr(torch, c["dtype"]))
    elif c["cons"]:
        g = {"f2": tensor(p, True).half, "f4": tensor(p, True).float, "f8": tensor(p, True).double}[c["dtype"]]().to_gsdata()
    else:
        g = gsply.GSData(*[a.astype(c["dtype"]) for a in p.arrays()], _format=fs)

    def vals(x):
        return {a: np.array(y.detach().double().numpy() if c["cont"] == "t" else y, np.float64) for a in ATTRS for y in [getattr(x, a)]}
    v0 = vals(g)
    f = FORMULA[c["op"]]
    if c["op"] in ("to_rgb", "to_sh") and lab[2] == ("rgb" if c["op"] == "to_rgb" else "sh"):
        return
    r = getattr(g, c["op"])(inplace=c["inplace"])
    v1 = vals(r)
    conv = any(lab[i] != to for i, to, _ in f.values())
    for a in ATTRS:
        w = v0[a]
        if a in f and lab[f[a][0]] != f[a][1]:
            w = f[a][2](w)
        elif a == "quats" and c["op"] == "denormalize" and conv and c["cont"] == "np":
            continue
        bad = ~(np.abs(v1[a] - w) <= (EPS[c["dtype"]] * (1 + np.abs(w)) + (1e-3 if a == "opacities" else 0) if w is not v0[a] else 0))
        need(not bad.any(), f"typed:{c['op']}:{a}", lambda: f"{c['dtype']} {a}: {v1[a][bad][:3]}, expected {w[bad][:3]}")
    want = list(lab)
    for i, to, _ in f.values():
        want[i] = to
    need(labels_of(r) == tuple(want), f"typed:{c['op']}:labels", lambda: str(labels_of(r)))
    if not c["inplace"]:
        need(all((v0[a] == vals(g)[a]).all() for a in ATTRS), f"typed:{c['op']}:source", "the source changed")
    else:
        need(r is g, f"typed:{c['op']}:self", "another object returned")
    ctx.evaluations += 1
    ctx.saw("typed", c)


def typed_cases():
    for cont, dts in (("np", ("f2", "f4", "f8", ">f4", ">f8", "i4", "i8")), ("t", ("float16", "bfloat16", "float32", "float64"))):
        for dt in dts:
            for cons in (False, True) if cont == "t" or dt in ("f2", "f4", "f8") else (False,):
                for lab in COMBOS:
                    for op in FORMULA:
                        for inp in (False, True):
                            yield {"typed": 1, "cont": cont, "dtype": dt, "cons": cons, "lab": list(lab), "op": op, "inplace": inp}


def large_observe(cont):
    def observe(ctx, g, p):
        need(order_of(g) == DEG[p.k] and g.get_sh_degree() == DEG[p.k], "label:sh_order", str(order_of(g)))
        ws = writers(cont, False)
        for name in ("plywrite", ("bytes", "flag")[len(p) % 2] if cont == "np" else "plywrite(compressed)"):
            fn, packed = ws[name]
            stored_check(ctx, fn(ctx, g), plain_of(g), f"stored[{cont}:{name}]", packed)
    return observe


def large_cases(tier):
    inits = ("ctor", "cons", "lin", "lin_cons", "mixs", "mixs_cons", "mixo_cons", "rgb_cons")
    for c in large.cases(tier, inits, (False,), (large.FEW, large.SMALL)):
        if tier == "thorough" or c["n"] < 5000 or c["init"] in ("cons", "lin", "mixs_cons"):
            yield c


# --- combining ----------------------------------------------------------------------------------

def routes(cont):
    import gsply
    r = {"add": lambda a, b: a.add(b), "+": lambda a, b: a + b, "sum": lambda a, b: sum([a, b]), "radd": lambda a, b: b.__add__(a)}
    if cont == "np":
        C = gsply.GSData.concatenate
        r.update({"concatenate": lambda a, b: C([a, b]), "concatenate3": lambda a, b: C([a, a, b]), "concatenate3m": lambda a, b: C([a, b, a]),
                  "concatenate(rev)": lambda a, b: C([b, a])})
    return r


def combine(ctx, c):
    (la, ka), (lb, kb) = (tuple(c["a"][0]), c["a"][1]), (tuple(c["b"][0]), c["b"][1])

    def mk(lab, k, n, cons, none):
        p = initial("real", k, lab).take(slice(0, n))
        if c["cont"] == "np":
            g = gsdata(p, shn_none=none)
            return p, (g.consolidate() if cons else g)
        return p, tensor(p, cons, none)
    for na, nb, ca, cb in c["sizes"]:
        pa, a = mk(la, ka, na, ca, False)
        pb, b = mk(lb, kb, nb, cb, c.get("none", False))
        sa, sb = snapshot(a), snapshot(b)
        for name, fn in routes(c["cont"]).items():
            ctx.beat()
            ctx.evaluations += 1
            if (la, ka) != (lb, kb):
                try:
                    r = fn(a, b)
                except ValueError:
                    pass
                except Exception as e:  # noqa: BLE001
                    need(False, f"combine:{name}:error-type", f"{type(e).__name__}: {e}")
                else:
                    need(False, f"combine:{name}:mixed", f"combining {la} K={ka} N={na} with {lb} K={kb} N={nb} returned {len(r)} Gaussians labelled {labels_of(r)}")
                ctx.saw(c["cont"], name, la, ka, lb, kb, na, nb, ca, cb)
            else:
                r = fn(a, b)
                need(labels_of(r) == la and order_of(r) == DEG[ka], f"combine:{name}:labels", lambda: f"{labels_of(r)} expected {la}")
            need(snapshot(a) == sa and snapshot(b) == sb, f"combine:{name}:changed", "combining changed an input")


# --- readers ------------------------------------------------------------------------------------

def read_labels(ctx, c):
    """A PLY file is in PLY units whatever its values look like."""
    import gsply
    p = initial("real", c["k"], ("linear", "linear", "rgb")).take(slice(0, c["n"]))
    p.labels = ("ply", "ply", "sh")
    raw = refs.std_bytes(p)
    f = _file(ctx, raw, "lab.ply")
    for name, rd in {"plyread": gsply.plyread, "GSData.load": gsply.GSData.load,
                     "GSTensor.load": lambda f: gsply.GSTensor.load(f, device="cpu")}.items():
        g = rd(f)
        same(plain_of(g), p, f"read:{name}", masks=False)
        need(order_of(g) == DEG[c["k"]], f"read:{name}:order", lambda: str(order_of(g)))
        ctx.evaluations += 1
    blob = gsply.compress_to_bytes(gsdata(p))
    for name, rd in readers().items():
        g = rd(ctx, blob)
        need(labels_of(g) == p.labels and order_of(g) == DEG[c["k"]], f"read:{name}:labels", lambda: f"{labels_of(g)} {order_of(g)}")
        ctx.evaluations += 1
    ctx.saw(raw)


def warm(ctx, w):
    k = 0 if w == "k0" else 3
    cont = "t" if w == "t" else "np"
    for rep in ("sep", "cons"):
        p = initial("real", k, ("linear", "linear", "rgb"))
        ops = mkops(cont)
        e = Explorer(ctx, ops, observe_in(cont, "x", k), {})
        e.replay("x", lambda: build(cont, rep, p.copy()), p, ["normalize", "to_sh", "denormalize", "to_rgb", "[1:]"])
    ctx.evaluations, ctx.violations = 0, []


def units(tier, seed):
    u = [{"read": k} for k in KS] + [{"cast": k} for k in KS]
    u += [{"k": k, "cont": c, "rep": r, "fam": f, "lab": list(l)}
         for k in KS for c in ("np", "t") for r in ("sep", "cons") for f in ("real", "edge") for l in COMBOS]
    u += [{"large": c, "cont": t} for c in large_cases(tier) for t in ("np", "t")]
    u += [{"typed": 1}]
    u += [{"combine": c, "k": k} for c in ("np", "t") for k in KS]
    return u


def run_unit(ctx, u):
    if "large" in u:
        large.run(ctx, {**u["large"], "cont": u["cont"]}, u["cont"], mkops(u["cont"]), large_observe(u["cont"]), every=large_observe(u["cont"]))
        return
    if "combine" in u:
        ka = u["k"]
        for la in COMBOS:
            for lb in COMBOS:
                for kb in KS:
                    sizes = [(2, 3, i, j) for i in (False, True) for j in (False, True)] + [(2, 0, False, False), (0, 2, False, True), (0, 0, True, False)]
                    if not ctx.thorough and la != lb and ka != kb:
                        sizes = sizes[:1]
                    c = {"cont": u["combine"], "a": [la, ka], "b": [lb, kb], "sizes": sizes, "none": kb == 0}
                    ctx.case(c, combine, ctx, c)
        return
    if "typed" in u:
        for c in typed_cases():
            ctx.case(c, typed_convert, ctx, c)
        return
    if "cast" in u:
        for lab in COMBOS:
            for dt in ("float16", "float64"):
                for cons in (False, True):
                    c = {"cast": 1, "k": u["cast"], "lab": list(lab), "dtype": dt, "cons": cons}
                    ctx.case(c, cast, ctx, c)
        return
    if "read" in u:
        for n in (0, 1, 2, 6):
            c = {"k": u["read"], "n": n, "read": 1}
            ctx.case(c, read_labels, ctx, c)
        return
    p = initial(u["fam"], u["k"], u["lab"])
    e = Explorer(ctx, mkops(u["cont"]), observe_in(u["cont"], u["fam"], u["k"]), u, max_n=6)
    e.run("x", lambda: build(u["cont"], u["rep"], p.copy()), p, (5 if u["k"] == 3 else 4) if ctx.thorough else 3 if u["k"] in (0, 3) else 2)
    ctx.sample({**u, "states": ctx.states, "transitions": ctx.transitions})


def replay(ctx, c):
    if "large" in c:
        large.run(ctx, c, c["cont"], mkops(c["cont"]), large_observe(c["cont"]), every=large_observe(c["cont"]))
    elif "typed" in c:
        ctx.case(c, typed_convert, ctx, c)
    elif "cast" in c:
        ctx.case(c, cast, ctx, c)
    elif "read" in c:
        ctx.case(c, read_labels, ctx, c)
    elif "sizes" in c:
        ctx.case(c, combine, ctx, c)
    else:
        p = initial(c["fam"], c["k"], c["lab"])
        Explorer(ctx, mkops(c["cont"]), observe_in(c["cont"], c["fam"], c["k"]), c).replay("x", lambda: build(c["cont"], c["rep"], p.copy()), p, c["path"])
