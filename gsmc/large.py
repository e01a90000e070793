"""Every operation once on scenes of many sizes: behaviour may not depend on how many Gaussians a scene holds."""
import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import gsdata, plain_of, realistic, same
from gsmc.explore import Explorer
from gsmc.routes import build
from gsmc.thist import tensor

BIG = (2047, 2048, 2049, 4095, 4096, 4099, 8191, 8192, 10007, 16384, 20011, 32768, 32771, 50021, 65535, 65536, 65537, 70001, 100003, 131075, 200003)
QUICK = {0: (257, 1025, 2049, 4099, 8193, 10007, 16385, 33000, 50021, 65537, 100003, 131075, 200003, 262147, 1048579), 3: (1025, 10007, 33000, 100003),
         8: (4099, 65537), 15: (1025, 4099, 10007, 20011, 50021, 100003)}
THOROUGH = {0: tuple(sorted({*QUICK[0], *(2 ** b + d for b in range(7, 19) for d in (-1, 0, 1)), 500009, 1000003, 2097155})), 3: QUICK[0][:-1], 8: QUICK[0][:-1], 15: QUICK[0][:-2]}


SMALL = {0: (257, 1025, 4099, 10007, 33000, 65537, 100003, 200003), 3: (10007,), 8: (4099,), 15: (1025, 10007, 33000)}
FEW = {0: (4099, 10007, 33000, 100003), 8: (1025,), 15: (10007,)}


def scene(n, k, init):
    p = realistic(n, k, 1)
    s, o, c = {"lin": (1, 1, 1), "mixs": (1, 0, 0), "mixo": (0, 1, 0), "rgb": (0, 0, 1)}.get(init.split("_")[0], (0, 0, 0))
    if s:
        p.scales = np.exp(p.scales).astype(np.float32)
    if o:
        p.opacities = refs.sigmoid(p.opacities).astype(np.float32)
    if c:
        p.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
    p.labels = ("linear" if s else "ply", "linear" if o else "ply", "rgb" if c else "sh")
    return p


def cases(tier, inits=("ctor", "cons", "lin", "lin_cons"), masks=(False, True), sizes=(QUICK, THOROUGH)):
    for k, ns in sizes[tier == "thorough"].items():
        for n in ns:
            for i in inits:
                if n > 300000 and i not in ("cons", "ctor"):
                    continue
                for masked in masks:
                    if masked and i == ("ctor" if n % 2 else "cons"):
                        continue
                    yield {"large": 1, "n": n, "k": k, "init": i, "masked": masked}


def maker(ctx, c, cont):
    p = scene(c["n"], c["k"], c["init"])
    if cont == "t":
        return (lambda: tensor(p, "cons" in c["init"])), p
    return (lambda: build("cons", p, ctx) if "cons" in c["init"] else gsdata(p)), p


def light(ctx, g, p):
    """What is copied and selected is the scene itself."""
    c = g.copy() if hasattr(g, "copy") else g.clone()
    same(plain_of(c), p, "copied")
    if len(p):
        same(plain_of(g[len(p) // 2:]), p.take(slice(len(p) // 2, None)), "sliced")


def run(ctx, c, cont, ops, observe, only=None, every=None, full=11000):
    make, p = maker(ctx, c, cont)
    e = Explorer(ctx, ops, observe, {})
    prefix = ["add_mask(a)", "add_mask(b)"] if c["masked"] else []
    for name in prefix:
        e.by_name[name]             # both alphabets have mask layers
    q = p.copy()
    for name in prefix:
        q, _ = e.by_name[name].model(q)
    todo = [c["op"]] if "op" in c else [o.name for o in ops if only is None or o.name in only]
    for name in todo:
        op = e.by_name[name]
        ctx.case({**c, "op": name}, one, ctx, e, make, prefix, q, op, observe if c["n"] <= full else every or light)


def one(ctx, e, make, prefix, q, op, observe):
    r = e.step(make, prefix, q, op)
    if r is None:
        return
    ctx.transitions += 1
    ctx.traces += 1
    ctx.states += 1
    ctx.saw("large", len(q), q.k, op.name, tuple(prefix), q.labels)
    observe(ctx, r[0], r[1].copy())
    need(len(r[0]) == len(r[1]), f"{op.name}:len")
