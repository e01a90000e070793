"""C14: concurrent calls behave as if run one after another (controlled scheduler over the real code)."""
import hashlib
import itertools
import os
import pickle
import shutil

import numpy as np

from gsmc import refs, sched, sog
from gsmc.core import need
from gsmc.data import gsdata, npy, realistic, snapshot
from gsmc.thist import tensor

LEVEL = "model_checking"
RULE = ("Real threads run the real calls; control is handed over only at scheduling points (every source line of the library executed by a call). For every ordered pair of operations "
        "(on the same scenes, on other scenes of equal size, and of another size), schedules with one preemption, starting from the just-imported module state (first use) and from the "
        "warmed state. Reduction: at every point a fingerprint of all state reachable from the library's modules and of the shared scenes is taken; where a run meets the same shared state at "
        "several points and the other call leaves that state unchanged, one point stands for all (the other call cannot tell them apart, and the interrupted one cannot notice it). Pairs of "
        "equal operations, and one representative per kind of state change left behind by the interrupting call, are run at every line without that reduction. Two preemptions: all pairs of "
        "points around shared-state changes. Each call must return what it returns alone, files must be byte-identical, shared scenes unchanged, nothing may deadlock. States are (operation, point) "
        "positions at which control was handed over; transitions are schedules executed.")
BOUND = {
    "quick": "56 operations, all 3136 ordered pairs, one preemption (first-use state on the same scenes and on scenes of another size, warm state); lines inside loops at their first and last visit; "
             "38 operations against themselves on two scenes of 190,003 Gaussians (10.6 MB files) at every line; two preemptions for equal pairs and 64 pairs of saving operations; torch.compile stand-ins for 5 operations",
    "thorough": "all ordered pairs x 3 scene relations x 2 initial states with every visit of every line; two preemptions around state changes for all pairs and at every 2nd line for the saving pairs; "
                "nested triples; one preemption at every bytecode for equal pairs",
}
ASSUMPTIONS = ["calls into NumPy, Torch and compiled kernels are atomic with respect to library code (compiled kernels only touch arrays private to their call or read-only)",
               "a thread-safe Numba threading layer is installed (tbb here; Numba itself aborts concurrent use of its 'workqueue' layer)", "importing the package itself is not concurrent"]
WARM = ["g", "t", "s"]
HANG = 300
ENV = {"NUMBA_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}


BIG = 190_003          # files of more than 10 MB
BIGOPS = ("write", "write(cons)", "write(linear)", "save(linear,cons)", "write_uncompressed", "write(arrays)", "write(c)", "write(c,linear)", "write_compressed", "to_bytes", "to_bytes(linear)",
          "to_arrays", "read", "read(c)", "load", "from_bytes", "boolmask", "fancy", "concat", "add", "normalize", "denormalize", "to_rgb", "to_sh", "masks", "apply_masks", "contiguous",
          "consolidate", "activate", "elementwise", "from_gsdata", "t.save", "t.save(linear)", "t.save(u)", "plywrite_gpu", "write(tensor)", "t.load", "read_gpu", "t.mask", "t.clone", "t.add",
          "t.normalize", "t.color")


class Env:
    """Scenes shared by all operations of one relation (which: 0 the shared set, 1 other values, 2 another size and degree)."""

    def __init__(self, ctx, which):
        import gsply
        self.d = ctx.path(f"c14.{which}")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        n, k, salt = ((3, 3, 0), (3, 3, 9), (5, 8, 4), (BIG, 0, 0), (BIG, 0, 9))[which]
        p = realistic(n, k, salt)
        p.masks = (np.arange(2 * n).reshape(n, 2) * 7 // 3 + which) % 2 > 0
        p.names = ["a", "b"]
        q = realistic(n, k, salt + 20)
        lin = p.copy()
        lin.scales, lin.opacities = np.exp(p.scales), refs.sigmoid(p.opacities).astype(np.float32)
        lin.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
        lin.labels = ("linear", "linear", "rgb")
        self.g, self.h, self.lin = gsdata(p), gsdata(q), gsdata(lin)
        self.gc, self.lc = gsdata(p).consolidate(), gsdata(lin).consolidate()
        self.t, self.tc, self.tl = tensor(p), tensor(p, cons=True), tensor(lin)
        self.u = os.path.join(self.d, "in.ply")
        with open(self.u, "wb") as f:
            f.write(refs.std_bytes(p))
        self.fv = gsply.plyread(self.u)
        from gsmc.checks.c11 import packed
        self.cb = refs.packed_bytes(*packed(n, k))
        self.c = os.path.join(self.d, "in.compressed.ply")
        with open(self.c, "wb") as f:
            f.write(self.cb)
        self.sog = {v: sog.zipped(sog.simple(v, min(n, 9), {0: 0, 3: 1, 8: 2}[k], 64, salt).files()) for v in (2, 3)}
        self.x = p.scales * 3
        self.p = p
        self.shared = [getattr(self, a) for a in ("g", "h", "lin", "gc", "lc", "t", "tc", "tl", "fv")]

    def state(self):
        return [snapshot(s) for s in self.shared] + [self.x.tobytes()]

    def digest(self):
        s = self.state()
        return s if len(self.p) < 100 else hashlib.sha256(pickle.dumps(s)).digest()

    def remember(self):
        """For a fast check that nothing at all was touched."""
        self.full = self.digest()
        self.fast = []
        for s in self.shared:
            a = [npy(v) for v in vars(s).values() if hasattr(v, "shape")]
            plain = {k: list(v) if isinstance(v, list) else dict(v) for k, v in vars(s).items() if isinstance(v, (list, dict))}
            self.fast.append((s, dict(vars(s)), a, [self.mark(x) for x in a], plain))

    def mark(self, x):
        return x.tobytes() if len(self.p) < 100 else hashlib.sha256(np.ascontiguousarray(x)).digest()

    def unchanged(self):
        for s, v, a, b, plain in self.fast:
            n = vars(s)
            if len(n) != len(v) or any(n.get(k, self) is not x for k, x in v.items()) or any(self.mark(x) != y for x, y in zip(a, b)) or any(n[k] != x for k, x in plain.items()):
                return self.digest() == self.full
        return True


def out(e, slot, name, fn):
    """Save into a folder shared by all threads, under a name of this thread's own."""
    f = os.path.join(e.top, f"{slot}{name}")
    fn(f)
    with open(f, "rb") as h:
        return h.read()


def canon(r):
    """Comparable form of whatever a call returned."""
    if isinstance(r, (bytes, str, int, float, bool, type(None))):
        return r
    if isinstance(r, np.ndarray):
        return (r.dtype.str, r.shape, r.tobytes())
    if hasattr(r, "format_state"):
        return snapshot(r)
    if hasattr(r, "detach"):
        return ("t", str(r.dtype), tuple(r.shape), r.detach().numpy().tobytes())
    if isinstance(r, dict):
        return {k: canon(v) for k, v in r.items()}
    if isinstance(r, (tuple, list)):
        return [canon(x) for x in r]
    return repr(r)


def ops():
    import gsply
    from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
    from gsply.writer import write_compressed, write_uncompressed
    from gsply.reader import read_compressed, read_uncompressed
    from gsply import utils
    G, T, W = gsply.GSData, gsply.GSTensor, gsply.plywrite
    m = lambda e: np.arange(len(e.g)) % 2 == 0  # noqa: E731
    o = {   # name: fn(env, slot)
        "write": lambda e, s: out(e, s, ".ply", lambda f: W(f, e.g)),
        "write(cons)": lambda e, s: out(e, s, ".ply", lambda f: W(f, e.gc)),
        "write(linear)": lambda e, s: out(e, s, ".ply", lambda f: W(f, e.lin)),
        "save(linear,cons)": lambda e, s: out(e, s, ".ply", lambda f: e.lc.save(f)),
        "write_uncompressed": lambda e, s: out(e, s, ".ply", lambda f: write_uncompressed(f, e.fv)),
        "write(arrays)": lambda e, s: out(e, s, ".ply", lambda f: W(f, e.g.means, e.g.scales, e.g.quats, e.g.opacities, e.g.sh0, e.g.shN)),
        "write(c)": lambda e, s: out(e, s, ".compressed.ply", lambda f: W(f, e.g, compressed=True)),
        "write(c,linear)": lambda e, s: out(e, s, ".compressed.ply", lambda f: W(f, e.lc)),
        "write_compressed": lambda e, s: out(e, s, ".x", lambda f: write_compressed(f, e.g.means, e.g.scales, e.g.quats, e.g.opacities, e.g.sh0, e.g.shN)),
        "to_bytes": lambda e, s: gsply.compress_to_bytes(e.gc),
        "to_bytes(linear)": lambda e, s: gsply.compress_to_bytes(e.lin),
        "to_arrays": lambda e, s: gsply.compress_to_arrays(e.g),
        "read": lambda e, s: gsply.plyread(e.u),
        "read(c)": lambda e, s: gsply.plyread(e.c),
        "load": lambda e, s: [G.load(e.u), read_uncompressed(e.u), read_compressed(e.c)],
        "from_bytes": lambda e, s: gsply.decompress_from_bytes(e.cb),
        "detect": lambda e, s: [gsply.detect_format(e.u), gsply.detect_format(e.c)],
        "sogread2": lambda e, s: gsply.sogread(e.sog[2]),
        "sogread3": lambda e, s: gsply.sogread(e.sog[3]),
        "slice": lambda e, s: [e.gc[1:3], e.g[::2], e.fv[-2:]],
        "index": lambda e, s: [e.g[1], e.gc[-1]],
        "boolmask": lambda e, s: [e.gc[m(e)], e.g[m(e)]],
        "fancy": lambda e, s: [e.gc[np.array([2, 0, 0])], e.lin[[1, 1]]],
        "copy": lambda e, s: [e.g.copy(), e.gc.copy()],
        "copy_slice": lambda e, s: [e.g.copy_slice(slice(0, 2)) if hasattr(e.g, "copy_slice") else None],
        "concat": lambda e, s: G.concatenate([e.g, e.h, e.gc]),
        "add": lambda e, s: [e.g + e.h, e.gc + e.gc, e.lin.add(e.lc)],
        "sum": lambda e, s: sum([e.g, e.h]),
        "normalize": lambda e, s: e.lin.normalize(inplace=False),
        "denormalize": lambda e, s: e.gc.denormalize(inplace=False),
        "to_rgb": lambda e, s: e.g.to_rgb(inplace=False),
        "to_sh": lambda e, s: e.lc.to_sh(inplace=False),
        "masks": lambda e, s: [e.g.combine_masks("and"), e.gc.combine_masks("or"), e.g.get_mask_layer("b"), e.g.combine_masks("and", layers=["a"])],
        "apply_masks": lambda e, s: [e.g.apply_masks("or", inplace=False), e.lc.apply_masks("and", layers=["b"], inplace=False)],
        "contiguous": lambda e, s: [e.fv.make_contiguous(inplace=False), e.gc.make_contiguous(inplace=False), e.fv.is_contiguous()],
        "consolidate": lambda e, s: e.lin.consolidate(),
        "views": lambda e, s: [e.g.unpack(), e.gc.to_dict(), len(e.g), repr(e.g), e.lin.format_state, e.g.get_sh_degree()],
        "from_arrays": lambda e, s: [G.from_arrays(e.p.means, e.p.scales, e.p.quats, e.p.opacities, e.p.sh0, e.p.shN), G.from_dict(e.lin.to_dict(), format="linear")],
        "activate": lambda e, s: [gsply.apply_pre_activations(e.g, inplace=False), gsply.apply_pre_deactivations(e.lc, inplace=False)],
        "elementwise": lambda e, s: [gsply.sigmoid(e.x), gsply.logit(gsply.sigmoid(e.x)), utils.sh2rgb(e.x), utils.rgb2sh(e.x)],
        "from_gsdata": lambda e, s: [T.from_gsdata(e.gc, device="cpu"), T.from_gsdata(e.lin, device="cpu")],
        "to_gsdata": lambda e, s: [e.tc.to_gsdata(), e.tl.to_gsdata()],
        "t.save": lambda e, s: out(e, s, ".compressed.ply", lambda f: e.t.save(f)),
        "t.save(linear)": lambda e, s: out(e, s, ".compressed.ply", lambda f: write_compressed_gpu(f, e.tl)),
        "t.save(u)": lambda e, s: out(e, s, ".ply", lambda f: e.tc.save(f, compressed=False)),
        "plywrite_gpu": lambda e, s: out(e, s, ".compressed.ply", lambda f: gsply.plywrite_gpu(f, e.tl)),
        "write(tensor)": lambda e, s: out(e, s, ".ply", lambda f: W(f, e.tl)),
        "t.load": lambda e, s: [T.load(e.u, device="cpu"), T.from_compressed(e.c, device="cpu")],
        "read_gpu": lambda e, s: [read_compressed_gpu(e.c, device="cpu"), gsply.plyread_gpu(e.c, device="cpu")],
        "t.slice": lambda e, s: [e.tc[1:3], e.t[0], e.t[[1, 0]]],
        "t.mask": lambda e, s: [e.t.combine_masks("and"), e.tc.apply_masks("or", inplace=False), e.t.get_mask_layer("a")],
        "t.clone": lambda e, s: [e.t.clone(), e.tc.clone(), e.t.consolidate()],
        "t.add": lambda e, s: [e.t + e.tc],
        "t.normalize": lambda e, s: [e.tl.normalize(inplace=False), e.t.denormalize(inplace=False)],
        "t.color": lambda e, s: [e.t.to_rgb(inplace=False), e.tl.to_sh(inplace=False)],
        "t.dtype": lambda e, s: [e.tc.double(), e.t.half().to_gsdata(), e.t.to_dict()],
    }
    return o


# --- torch.compile stand-ins (the compiler itself is not exercised: it is third-party and takes minutes) ---------------------

class Compile:
    """off: as configured; ok: compiles to an equivalent wrapper; broken: compiles, but the result fails when called; refuse: compiling fails."""

    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        import torch
        self.old = torch.compile
        mode = self.mode

        def compile(fn, *a, **k):
            if mode == "refuse":
                raise RuntimeError("no compiler")

            def w(*x):
                if mode == "broken":
                    raise RuntimeError("no C++ compiler")
                return fn(*x)
            return w
        if mode != "off":
            torch.compile = compile

    def __exit__(self, *a):
        import torch
        torch.compile = self.old


# --- exploration ----------------------------------------------------------------------------------------------

STATE = {}


def setup(ctx):
    if "ops" in STATE:
        return
    import gsply
    import gsply.torch.compression  # noqa: F401
    import gsply.sog_reader  # noqa: F401
    _ = gsply.GSTensor, gsply.plyread_gpu, gsply.sogread, gsply.compress_to_bytes
    if "pristine" not in STATE:
        STATE["pristine"] = sched.Pristine()
    top = ctx.path("c14.out")
    os.makedirs(top, exist_ok=True)
    STATE["envs"] = [Env(ctx, w) for w in range(3)]
    for e in STATE["envs"]:
        e.top = top
        e.remember()
    STATE["ops"] = ops()
    STATE["alone"] = {}
    STATE["len"] = {}
    STATE["effect"] = {}
    STATE["visits"] = 0 if ctx.thorough else 2
    STATE["shared"] = sched.State([vars(x) for e in STATE["envs"] for x in e.shared] + [e.x for e in STATE["envs"]])


def big_envs(ctx):
    """Two sets of large scenes with different values, made when a case needs them."""
    while len(STATE["envs"]) < 5:
        e = Env(ctx, len(STATE["envs"]))
        e.top = STATE["envs"][0].top
        e.remember()
        STATE["envs"].append(e)


def call(name, which, slot):
    e, f = STATE["envs"][which], STATE["ops"][name]
    return lambda: canon(f(e, slot))


def alone(name, which):
    """Result of the call run by itself, checked to be reproducible from either initial state."""
    key = (name, which)
    if key not in STATE["alone"]:
        r = call(name, which, "z")()
        STATE["pristine"].restore()
        need(call(name, which, "z")() == r, f"alone:{name}", "the call does not return the same when repeated in a fresh library state")
        STATE["alone"][key] = r
    return STATE["alone"][key]


def points(name, which, mode, opcodes=False):
    """Number of scheduling points of the call in the given initial state."""
    return len(trail(name, which, mode, opcodes))


def trail(name, which, mode, opcodes=False):
    """Scheduling points passed by the call: (file, line, fingerprint of the shared state)."""
    key = (name, which, mode, opcodes)
    if key not in STATE["len"]:
        begin(mode)
        c = sched.run([call(name, which, "z")], [(0, None)], opcodes=opcodes, trail=True, probe=None if opcodes else STATE["shared"], visits=STATE["visits"], patience=120)
        STATE["len"][key] = c[4][0]
    return STATE["len"][key]


def effect(name, which, mode):
    """What the call leaves changed in the shared state (lazily created caches and imports, in practice)."""
    key = (name, which, mode)
    if key not in STATE["effect"]:
        begin(mode)
        f = STATE["shared"]
        old = f.full()
        call(name, which, "z")()
        STATE["effect"][key] = f.effect(old, f.full())
    return STATE["effect"][key]


def speaks(name, mode):
    """The first operation in the list with this effect stands for all of them when another call is interrupted at every line."""
    e = effect(name, 0, mode)
    return bool(e) and next(n for n in ops_names if effect(n, 0, mode) == e) == name


def chosen(tr, keep):
    """1-based positions: all, or the first `keep` and the last time each source line is reached."""
    if not keep:
        return list(range(1, len(tr) + 1))
    cnt, last, res = {}, {}, set()
    for i, (f, n, _) in enumerate(tr, 1):
        cnt[f, n] = cnt.get((f, n), 0) + 1
        if cnt[f, n] <= keep:
            res.add(i)
        last[f, n] = i
    return sorted(res | set(last.values()))


def segments(tr, around=0):
    """One position for each maximal run of points with the same shared state, and the last point; or also the points around each change."""
    ch = [1, *(i + 1 for i in range(1, len(tr)) if tr[i][2] != tr[i - 1][2])]
    if not around:
        return sorted({*ch, len(tr)})
    return sorted({j for i in (*ch, len(tr)) for j in range(i - around, i + around) if 1 <= j <= len(tr)} | {len(tr)})


def begin(mode):
    if mode == "first":
        STATE["pristine"].restore()


def clean():
    top = STATE["envs"][0].top
    for x in os.listdir(top):
        os.unlink(os.path.join(top, x))


def judge(ctx, c, res, fns, places, key, look=True):
    for (name, which), r in zip(fns, res):
        ctx.evaluations += 1
        if r[0] == "raised":
            need(False, f"raised:{name}:{key}", f"{name} raised {r[1]}: {r[2]} when {key} ran concurrently; control was handed over at {places}")
        if r[1] != alone(name, which):
            need(False, f"result:{name}:{key}", f"{name} returned something else than alone when {key} ran concurrently; control was handed over at {places}: {diff(r[1], alone(name, which))}")
    for w in {w for _, w in fns}:
        if look and not STATE["envs"][w].unchanged():
            p = STATE["pristine"]
            STATE.clear()
            STATE["pristine"] = p
            need(False, f"shared:{key}", f"a shared scene is changed after {fns}; control was handed over at {places}")


def diff(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 30):i + 40]} vs ...{b[max(0, i - 30):i + 40]}"


def execute(ctx, c, fns, plan, mode, opcodes=False, traced=None):
    begin(mode)
    try:
        res, cnt, blocked, places = sched.run([call(n, w, s) for (n, w), s in zip(fns, "xyv")], plan, opcodes=opcodes, traced=traced, **({"patience": 20} if fns[0][1] > 2 else {}))
    except sched.Deadlock as e:
        need(False, f"deadlock:{fns[0][0]}", f"{fns} under {plan}: {e}")
    ctx.transitions += 1
    ctx.notes["blocked"] = ctx.notes.get("blocked", 0) + blocked
    for p in places:
        ctx.saw(fns[0][0], p)
    if places:
        ctx.traces += 1
    judge(ctx, c, res, fns, places, "+".join(n for n, _ in fns[1:]) or fns[0][0], c.get("look", True))
    return cnt


def pair(ctx, c):
    """Every schedule with one preemption of a by b (b runs to completion inside a)."""
    setup(ctx)
    a, b, w, mode, op = c["a"], c["b"], c["w"], c["mode"], c.get("op", False)
    with Compile(c.get("comp", "off")):
        alone(a, 0), alone(b, w)
        tr = trail(a, 0, mode, op)
        full = c.get("all") or speaks(b, mode) and (w == 0 or ctx.thorough)
        at = chosen(tr, c.get("keep", 0)) if full else segments(tr)
        need(len(at) > 0, "harness", f"{a} executes no library line")
        for i in ([c["i"]] if "i" in c else at):
            cc = {**c, "i": i}
            ctx.beat(cc)
            try:
                execute(ctx, cc, [(a, 0), (b, w)], [(0, i), (1, None), (0, None)], mode, op, traced=[True, False])
            except Exception as e:  # noqa: BLE001
                ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), cc)
                return
        ctx.states += len(at)
    clean()


def big(ctx, c):
    """Two calls on different large scenes (files of more than 10 MB), one preemption at every line."""
    setup(ctx)
    big_envs(ctx)
    a, b, mode = c["a"], c["b"], "first"
    alone(a, 3), alone(b, 4)
    begin(mode)
    tr = sched.run([call(a, 3, "z")], [(0, None)], trail=True, patience=300)[4][0]
    at = chosen(tr, c.get("keep", 0))[c.get("part", 0)::c.get("of", 1)]
    for i in ([c["i"]] if "i" in c else at):
        cc = {**c, "i": i}
        ctx.beat(cc)
        try:
            execute(ctx, {**cc, "look": i == at[-1] or "i" in c}, [(a, 3), (b, 4)], [(0, i), (1, None), (0, None)], mode, traced=[True, False])
        except Exception as e:  # noqa: BLE001
            ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), cc)
            return
    ctx.states += len(at)
    clean()
    del STATE["envs"][3:]
    for k in [k for k in STATE["alone"] if k[1] > 2]:
        del STATE["alone"][k]


def two(ctx, c):
    """Every schedule a[i] b[j] a... b... with two preemptions."""
    setup(ctx)
    a, b, w, mode = c["a"], c["b"], c["w"], c["mode"]
    with Compile(c.get("comp", "off")):
        alone(a, 0), alone(b, w)
        if c.get("seg"):
            return seg(ctx, c)
        at, m = chosen(trail(a, 0, mode), c.get("keep", 0)), points(b, w, mode)
        for i in ([c["i"]] if "i" in c else at[c["lo"]::c["hi"]]):
            j = c.get("j", 1 + (i * 7 + c.get("off", 0)) % c["step"])
            while j <= m:
                cc = {**c, "i": i, "j": j}
                ctx.beat(cc)
                try:
                    cnt = execute(ctx, cc, [(a, 0), (b, w)], [(0, i), (1, j), (0, None), (1, None)], mode)
                except Exception as e:  # noqa: BLE001
                    ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), cc)
                    return
                if "j" in c:
                    break
                m = max(m, cnt[1]) if mode == "first" else m
                j += c["step"]
    clean()


def seg(ctx, c):
    """Two preemptions, at the points around each change of the shared state."""
    a, b, w, mode = c["a"], c["b"], c["w"], c["mode"]
    at, bt = segments(trail(a, 0, mode), c["seg"]), segments(trail(b, w, mode), c["seg"])
    for i, j in ([(c["i"], c["j"])] if "i" in c else itertools.product(at, bt)):
        cc = {**c, "i": i, "j": j}
        ctx.beat(cc)
        try:
            execute(ctx, cc, [(a, 0), (b, w)], [(0, i), (1, j), (0, None), (1, None)], mode)
        except Exception as e:  # noqa: BLE001
            ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), cc)
            break
    ctx.states += len(at) * len(bt)
    clean()


def nested(ctx, c):
    """a[i] b[j] third... b... a...: three threads, two preemptions."""
    setup(ctx)
    a, b, d, mode = c["a"], c["b"], c["c"], c["mode"]
    with Compile(c.get("comp", "off")):
        alone(a, 0), alone(b, 0), alone(d, 1)
        n, m = points(a, 0, mode), points(b, 0, mode)
        for i in ([c["i"]] if "i" in c else range(1 + c["lo"], n + 1, c["hi"])):
            for j in ([c["j"]] if "j" in c else range(1 + i % c["step"], m + 1, c["step"])):
                cc = {**c, "i": i, "j": j}
                ctx.beat(cc)
                try:
                    execute(ctx, cc, [(a, 0), (b, 0), (d, 1)], [(0, i), (1, j), (2, None), (0, None)], mode, traced=[True, True, False])
                except Exception as e:  # noqa: BLE001
                    ctx.violation(getattr(e, "key", "error"), getattr(e, "msg", repr(e)), cc)
                    return
    clean()


FN = {"pair": pair, "big": big, "two": two, "nested": nested}
CRIT = ("write", "write(linear)", "save(linear,cons)", "write(c)", "write(c,linear)", "t.save(linear)", "t.save", "write(tensor)")
COMP = ("t.save", "t.load", "read_gpu", "t.save(linear)", "plywrite_gpu")


def names():
    return list(ops_names)


ops_names = ("write", "write(cons)", "write(linear)", "save(linear,cons)", "write_uncompressed", "write(arrays)", "write(c)", "write(c,linear)", "write_compressed", "to_bytes", "to_bytes(linear)",
             "to_arrays", "read", "read(c)", "load", "from_bytes", "detect", "sogread2", "sogread3", "slice", "index", "boolmask", "fancy", "copy", "copy_slice", "concat", "add", "sum", "normalize",
             "denormalize", "to_rgb", "to_sh", "masks", "apply_masks", "contiguous", "consolidate", "views", "from_arrays", "activate", "elementwise", "from_gsdata", "to_gsdata", "t.save",
             "t.save(linear)", "t.save(u)", "plywrite_gpu", "write(tensor)", "t.load", "read_gpu", "t.slice", "t.mask", "t.clone", "t.add", "t.normalize", "t.color", "t.dtype")


def cases(tier, a):
    """All cases in which `a` is the call interrupted first."""
    th = tier == "thorough"
    keep = {} if th else {"keep": 1}
    for b in ops_names:
        for w, mode in itertools.product((0, 1, 2), ("first", "warm")):
            if a == b:
                if th or mode == "first" or w == 2:
                    yield "pair", {"a": a, "b": b, "w": w, "mode": mode, "all": 1, **keep}
            elif th or (w, mode) in ((0, "first"), (2, "first"), (0, "warm")):
                yield "pair", {"a": a, "b": b, "w": w, "mode": mode, **keep}
        if a == b or (a in CRIT and b in CRIT) or th:
            for w, mode in itertools.product((0, 2), ("first", "warm")):
                if th or mode == "first":
                    yield "two", {"a": a, "b": b, "w": w, "mode": mode, "seg": 2 if th or a == b else 1}
    if a in BIGOPS:
        for b in BIGOPS if th else (a,):
            if a == b or a in CRIT and b in CRIT:
                if th or a not in ("load", "plywrite_gpu", "read_gpu", "t.save"):
                    of = 4 if a in ("add", "t.save(linear)", "t.load", "t.save", "plywrite_gpu", "read_gpu", "load") else 1
                    for part in range(of):
                        yield "big", {"a": a, "b": b, **keep, "part": part, "of": of}
    if a in COMP:
        for b, comp, mode in itertools.product(COMP, ("ok", "broken", "refuse"), ("first", "warm")):
            if th or a == b:
                yield "pair", {"a": a, "b": b, "w": 0, "mode": mode, "comp": comp, **keep}
            if th or mode == "first":
                yield "two", {"a": a, "b": b, "w": 0, "mode": mode, "comp": comp, "seg": 2 if th or a == b else 1}
    if th:
        yield "pair", {"a": a, "b": a, "w": 0, "mode": "first", "op": True, "all": 1}
        for b in CRIT:
            if a in CRIT and (a == b or (a, b) in (("write", "write(linear)"), ("write(linear)", "write(c,linear)"), ("write(c)", "write"))):
                for lo in range(8):
                    yield "two", {"a": a, "b": b, "w": 0, "mode": "first", "step": 2, "lo": lo, "hi": 8}
        for b, d in itertools.product(CRIT[:4], CRIT[1:6:2]):
            if a in CRIT[1:4]:
                yield "nested", {"a": a, "b": b, "c": d, "mode": "first", "step": 3, "lo": 0, "hi": 2}


HEAVY = ("load", "read(c)", "t.load", "read_gpu", "detect", "read")


def units(tier, seed):
    big = [{"a": a, "big": i} for a in ops_names for i, (w, c) in enumerate(cases(tier, a)) if w == "big"]
    big.sort(key=lambda u: u["a"] not in ("t.load", "t.save(linear)", "load", "read_gpu", "add", "save(linear,cons)", "write(c,linear)"))
    order = sorted(ops_names, key=lambda a: (a not in HEAVY, a not in COMP, a not in CRIT))
    return [{"a": a, "m": m, "n": n} for a in order for n in ((1 if tier == "quick" else 4),) for m in range(n)] + big


def run_unit(ctx, u):
    for i, (w, c) in enumerate(cases(ctx.tier, u["a"])):
        if (i == u["big"]) if "big" in u else (w != "big" and i % u["n"] == u["m"]):
            c = {**c, "w_": w}
            ctx.case(c, FN[w], ctx, c)
            ctx.sample(c)


def warm(ctx, w):
    setup(ctx)
    for name in ops_names:
        if {"t": name.startswith("t.") or "gpu" in name or "tensor" in name or "gsdata" in name, "s": name.startswith("sog") or "read" in name}.get(w, True):
            for which in range(3):
                alone(name, which)
    need(tuple(STATE["ops"]) == ops_names, "harness", "operation list")
    ctx.evaluations, ctx.violations = 0, []


def replay(ctx, c):
    ctx.case(c, FN[c["w_"]], ctx, c)
