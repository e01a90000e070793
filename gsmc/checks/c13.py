"""C13: a failed save is reported and leaves nothing that reads as a scene; a normal return has stored the complete file."""
import errno
import itertools
import os
import pathlib
import resource
import shutil
import signal

import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import KS, gsdata, realistic, snapshot, unique
from gsmc.routes import build
from gsmc.shim import storage
from gsmc.thist import tensor

LEVEL = "fault_enumeration"
RULE = ("For every save entry point x SH degree x construction route/labels/size, the storage is made to stop accepting data after every possible number of bytes (a file-size limit in the "
        "process, exact to the byte), with no / a longer / a shorter / an equal previous file of that name; plus every other way a file cannot be created, every output name form, and all "
        "ordered pairs of saves to one name with the first one failing. A case is (entry point, scene, previous file, number of bytes accepted); it is non-trivial because the save had to "
        "fail (or, at the full size, to succeed), distinct by that tuple.")
BOUND = {
    "quick": "19 entry points x degrees x (fresh scene; other scene forms by rotation), every byte 0..size (files of 0.6-3 KB); storage that fills up although space could be reserved, recovers, accepts m bytes per call (m from 1 to the file size), interrupts calls, or reports a lost write only at the close; 96 KB, 3 MB and 10.6 MB files around the header end, buffer boundaries and the end; 4 kinds of previous file; 11 ways creation fails; 22 name forms x all entry points",
    "thorough": "all degrees x 16 scene forms x 4-5 previous files at every byte; large files at every header byte and +-8 of every block; 2-chunk files at every byte; all pairs of entry points for failed-then-repeated saves",
}
ASSUMPTIONS = ["storage that stops accepting data is simulated by RLIMIT_FSIZE (partial write, then EFBIG), by /dev/full (ENOSPC) and by a preloaded shim of the C library's write calls (ENOSPC, short and interrupted writes, EIO/EDQUOT at close)", "a file left exactly as it was before the failed save "
               "is not a leftover of it", "power loss (data accepted by the kernel and lost later) is outside the contract: the library does not promise durability"]
WARM = ["u", "c", "t"]
SHIM = True
INF = resource.RLIM_INFINITY


class limited:
    """Within this block every file of this process stops accepting data at `n` bytes."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, INF))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, (INF, INF))


# --- entry points: name -> (container, kind, adds extension, fn(path, object)) -----------------------------------

def arrays(g, flat=False):
    s = g.shN
    if flat and s is not None:
        s = np.asarray(s).transpose(0, 2, 1).reshape(len(g), 3 * s.shape[1])
    return g.means, g.scales, g.quats, g.opacities, g.sh0, s


def entries():
    import gsply
    from gsply.torch.compression import write_compressed_gpu
    from gsply.writer import write_compressed, write_uncompressed
    W = gsply.plywrite
    return {
        "plywrite": ("g", "auto", False, lambda f, g: W(f, g)),
        "plywrite(noval)": ("g", "auto", False, lambda f, g: W(f, g, validate=False)),
        "plywrite(compressed)": ("g", "c", True, lambda f, g: W(f, g, compressed=True)),
        "plywrite(arrays)": ("a", "auto", False, lambda f, g: W(f, *arrays(g))),
        "plywrite(arrays,flat)": ("a", "auto", False, lambda f, g: W(f, *arrays(g, True))),
        "plywrite(arrays,compressed)": ("a", "c", True, lambda f, g: W(f, *arrays(g), compressed=True)),
        "plywrite(tensor)": ("t", "auto", False, lambda f, t: W(f, t)),
        "plywrite(tensor,compressed)": ("t", "c", True, lambda f, t: W(f, t, compressed=True)),
        "save": ("g", "auto", False, lambda f, g: g.save(f)),
        "save(compressed)": ("g", "c", True, lambda f, g: g.save(f, compressed=True)),
        "write_uncompressed": ("g", "u", False, lambda f, g: write_uncompressed(f, g)),
        "write_uncompressed(noval)": ("g", "u", False, lambda f, g: write_uncompressed(f, g, validate=False)),
        "write_compressed": ("a", "c", False, lambda f, g: write_compressed(f, *arrays(g))),
        "write_compressed(noval)": ("a", "c", False, lambda f, g: write_compressed(f, *arrays(g), validate=False)),
        "plywrite_gpu": ("t", "c", False, lambda f, t: gsply.plywrite_gpu(f, t)),
        "t.save": ("t", "c", False, lambda f, t: t.save(f)),
        "t.save(uncompressed)": ("t", "auto", False, lambda f, t: t.save(f, compressed=False)),
        "t.save_compressed": ("t", "c", False, lambda f, t: t.save_compressed(f)),
        "write_compressed_gpu": ("t", "c", False, lambda f, t: write_compressed_gpu(f, t)),
    }


COMPRESSED = (".ply_compressed", ".compressed.ply")


def resolve(name, e):
    """(file name that must be written, kind) for a requested name, as documented."""
    _, kind, adds, _ = e
    isc = name.endswith(COMPRESSED)
    if kind == "auto":
        return name, "c" if isc else "u"
    if adds and not isc:
        return (name[:-4] + ".compressed.ply" if name.endswith(".ply") and name != ".ply" else name + ".compressed.ply"), "c"
    return name, kind


# --- scenes ---------------------------------------------------------------------------------------------------

FORMS = ("ctor", "none", "cons", "slice_cons", "file", "concat", "linear", "rgb", "masks", "linear_cons", "half_open", "fancy_cons", "add_cons", "tensor_cons", "copy_cons", "lin_rgb_cons")


def scene(ctx, cont, form, n, k, salt=0):
    """A scene object for the container ('a' uses a GSData whose arrays are passed)."""
    p = realistic(n, k, salt)
    if "lin" in form:
        p.scales, p.opacities = np.exp(p.scales), refs.sigmoid(p.opacities).astype(np.float32)
        p.labels = ("linear", "linear", p.labels[2])
    if "rgb" in form:
        p.sh0 = (p.sh0 * refs.C0 + 0.5).astype(np.float32)
        p.labels = (*p.labels[:2], "rgb")
    if form == "masks":
        p.masks = np.arange(2 * n).reshape(n, 2) % 3 > 0
        p.names = ["a", "b"]
    base = {"linear": "ctor", "rgb": "ctor", "masks": "ctor", "linear_cons": "cons", "lin_rgb_cons": "cons"}.get(form, form)
    if cont == "t":
        if base in ("file", "tensor_cons") or base == "none" and k:
            return tensor(p, cons=base != "none")
        return tensor(p, cons="cons" in form, shn_none=form == "none")
    if form == "masks":
        return gsdata(p)
    return build(base, p, ctx)


def usable(cont, form):
    return cont != "a" or not ("lin" in form or "rgb" in form or form == "masks")


# --- checking -------------------------------------------------------------------------------------------------

def listing(d):
    out = {}
    for n in sorted(os.listdir(d)):
        f = os.path.join(d, n)
        if os.path.isfile(f):
            with open(f, "rb") as h:
                out[n] = h.read()
        else:
            out[n] = None
    return out


def unreadable(ctx, d, n, blob, key, what, full=True):
    import gsply
    f = os.path.join(d, n)
    rd = {"plyread": gsply.plyread}
    if full:
        from gsply.reader import read_compressed, read_uncompressed
        rd.update({"read_uncompressed": read_uncompressed, "read_compressed": read_compressed, "GSTensor.load": lambda x: gsply.GSTensor.load(x, device="cpu"),
                   "from_compressed": lambda x: gsply.GSTensor.from_compressed(x, device="cpu"), "bytes": lambda x: gsply.decompress_from_bytes(blob)})
    for nm, fn in rd.items():
        ctx.evaluations += 1
        try:
            r = fn(f)
        except Exception:  # noqa: BLE001
            continue
        need(r is None, f"leftover:{key}", lambda: f"{nm} reads {n} ({len(blob)} bytes) left by a failed save as a scene of {len(r)} Gaussians: {what}")


def sane(blob, kind, n, k):
    if kind == "u":
        kk, t = refs.split_uncompressed(blob)
        need(kk == k and len(t) == n, "incomplete", lambda: f"{len(t)} of {n}")
    else:
        c, v, s = refs.split_packed(blob)
        need(len(v) == n and (0 if s is None else s.shape[1]) == 3 * k, "incomplete", lambda: f"{len(v)} of {n}")


def healthy(ctx, d, e, name, g, n, k):
    """Save on healthy storage; returns the content."""
    want, kind = resolve(name, e)
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    e[3](os.path.join(d, name), g)
    ls = listing(d)
    need(list(ls) == [want], "name", lambda: f"saving as {name!r} created {list(ls)}, expected {want!r}")
    sane(ls[want], kind, n, k)
    return want, ls[want]


def put(f, b):
    with open(f, "wb") as h:
        h.write(b)


def previous(kind, full, what):
    """Content of the file that was there before (None: no file)."""
    if what == "none":
        return None
    if what == "garbage":
        return b"not a ply file\n" * 400
    n = {"longer": 9, "shorter": 1, "other": 4}[what]
    if (what == "other") == (kind == "c"):
        return refs.std_bytes(unique(n, 15 if what == "longer" else 3))
    from gsmc.checks.c11 import packed
    return refs.packed_bytes(*packed(n, 15 if what == "longer" else 3))


def positions(size, hd, cuts):
    if cuts == "all":
        return range(size + 1)
    if cuts == "tiny":
        return sorted(x for x in {0, hd, hd + 1, size // 2, 1 << 20, 1 << 23, 10_000_000, size - 65536, size - 4096, size - 1, size} if 0 <= x <= size)
    if cuts == "few":
        s = {0, 1, hd - 1, hd, hd + 1, size // 2} | set(range(size - 17, size + 1))
        for b in (4096, 65536, 1 << 17, 1 << 20, 1 << 21):
            for x in (b, size // b * b):
                s |= {x - 1, x, x + 1, x + hd}
        return sorted(x for x in s if 0 <= x <= size)
    s = set(range(min(hd + 20, size + 1))) | {size - i for i in range(20)} | {size}
    for b in (4096, 8192, 65536, 1 << 17, 1 << 20, 1 << 21):
        st = range(b, size, b)
        for x in (list(st) if len(st) < 40 else list(st)[:20] + list(st)[-20:]):
            s |= set(range(x - 8, x + 9))
    s |= {hd + i * 16 for i in range(min(100, (size - hd) // 16))}
    return sorted(x for x in s if 0 <= x <= size)


def failing(ctx, c):
    """Storage stops after every number of bytes."""
    e = entries()[c["ent"]]
    d = ctx.path("out")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    n, k = c["n"], c["k"]
    g = scene(ctx, e[0], c["form"], n, k)
    before = snapshot(g)
    want, full = healthy(ctx, d, e, c["name"], g, n, k)
    need(snapshot(g) == before, "scene-changed", "a successful save changed the scene")
    f, out = os.path.join(d, c["name"]), os.path.join(d, want)
    prev = previous(resolve(c["name"], e)[1], full, c["prev"])
    hd = full.index(b"\nend_header\n") + 12
    for lim in ([c["lim"]] if "lim" in c else positions(len(full), hd, c["cuts"])):
        cc = {**c, "lim": lim}
        ctx.beat(cc)
        if prev is None:
            if os.path.exists(out):
                os.unlink(out)
        else:
            put(out, prev)
        err = None
        try:
            with limited(lim):
                e[3](f, g)
        except Exception as x:  # noqa: BLE001
            err = x
        ctx.evaluations += 1
        what = f"{c['ent']} of {c['form']} n={n} bands={k}, previous file {c['prev']}, {lim} of {len(full)} bytes accepted"
        try:
            ls = listing(d)
            if lim >= len(full):
                need(err is None, f"spurious:{c['ent']}", lambda: f"the save failed ({err!r}) although everything fits: {what}")
                need(ls == {want: full}, f"content:{c['ent']}", lambda: f"the stored file differs from one saved with no previous file ({ {a: b and len(b) for a, b in ls.items()} }): {what}")
            else:
                need(err is not None, f"unreported:{c['ent']}", lambda: f"the save returned normally: {what}")
                for nm, b in ls.items():
                    if nm == want and b == prev:
                        continue
                    unreadable(ctx, d, nm, b, c["ent"], what, full=not full.startswith(b) or len(b) == len(full))
                    if nm != want:
                        os.unlink(os.path.join(d, nm))
            need(snapshot(g) == before, f"scene-changed:{c['ent']}", lambda: f"the save changed the scene: {what}")
        except Exception as x:  # noqa: BLE001
            ctx.violation(getattr(x, "key", "error"), getattr(x, "msg", repr(x)), cc)
            return
        ctx.saw(cc)
    # the scene still saves as before
    if c["cuts"] == "all":
        w2, b2 = healthy(ctx, d, e, c["name"], g, n, k)
        need(b2 == full, f"retry:{c['ent']}", "a save after failed ones stores something else")
    shutil.rmtree(d, ignore_errors=True)


def modes(size, hd, c):
    """Ways in which storage that accepts the call still does not hold the data (each one a set of arguments of `storage`)."""
    for lim in positions(size, hd, c["cuts"]):
        yield {"free": lim}
    for lim in positions(size, hd, "tiny" if c["cuts"] == "tiny" else "few"):
        yield {"free": lim, "once": 1}
    for m in sorted({1, 2, 3, 7, 13, 4095, 4096, 4097, hd - 1, hd, hd + 1, size // 2, size - hd, size - 1, size}):
        if 0 < m <= size and size // m < (5000 if c["cuts"] != "tiny" else 300):
            yield {"wchunk": m}
            yield {"wchunk": m, "weintr": 1}
            for lim in (hd - 1, hd + 1, size - 1):
                yield {"wchunk": m, "free": lim}
    yield {"weintr": 1}
    yield {"close": errno.EIO}
    yield {"close": errno.EDQUOT}


def faulty(ctx, c):
    """Storage that fills up while space is only reserved, recovers, tears or interrupts calls, or loses data at the close."""
    e = entries()[c["ent"]]
    d = ctx.path("out")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    n, k = c["n"], c["k"]
    g = scene(ctx, e[0], c["form"], n, k)
    before = snapshot(g)
    want, full = healthy(ctx, d, e, c["name"], g, n, k)
    f, out = os.path.join(d, c["name"]), os.path.join(d, want)
    prev = previous(resolve(c["name"], e)[1], full, c["prev"])
    hd = full.index(b"\nend_header\n") + 12
    for m in ([c["mode"]] if "mode" in c else modes(len(full), hd, c)):
        cc = {**c, "mode": m}
        ctx.beat(cc)
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        if prev is not None:
            put(out, prev)
        err = None
        try:
            with storage(d, **m) as cnt:
                e[3](f, g)
        except Exception as x:  # noqa: BLE001
            err = x
        ctx.evaluations += 1
        what = f"{c['ent']} of {c['form']} n={n} bands={k}, previous file {c['prev']}, storage {m}, {len(full)} bytes needed, {cnt.refused} of {cnt.calls} calls refused"
        try:
            ls = listing(d)
            if err is None:
                need("close" not in m or not cnt.refused, f"unreported:close:{c['ent']}", lambda: f"the save returned normally although the storage reported a lost write when the file was closed: {what}")
                need(ls == {want: full}, f"unreported:{c['ent']}", lambda: f"the save returned normally with { {a: b and len(b) for a, b in ls.items()} } stored: {what}")
            else:
                need(list(m) != ["free"] or m["free"] < len(full), f"spurious:{c['ent']}", lambda: f"{err!r} although everything fits: {what}")
                for nm, b in ls.items():
                    if nm == want and b in (prev, full):
                        continue
                    unreadable(ctx, d, nm, b, c["ent"], what, full=not full.startswith(b) or len(b) == len(full))
            need(snapshot(g) == before, f"scene-changed:{c['ent']}", lambda: f"the save changed the scene: {what}")
        except Exception as x:  # noqa: BLE001
            ctx.violation(getattr(x, "key", "error"), getattr(x, "msg", repr(x)), cc)
            return
        ctx.saw(cc)
    shutil.rmtree(d, ignore_errors=True)


def uncreatable(ctx, c):
    """The file cannot be created, or its storage is full from the start."""
    e = entries()[c["ent"]]
    d = ctx.path("out")
    k = c["k"]
    g = scene(ctx, e[0], "ctor", 3, k)
    before = snapshot(g)
    for ext in (".ply", ".compressed.ply"):
        for how in ("nodir", "isdir", "filedir", "devfull", "toolong", "nul", "nofile", "dangling", "loop", "perm", "permfile", "devfulldir"):
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            name = "x" + ext
            want, kind = resolve(name, e)
            f, out = os.path.join(d, name), os.path.join(d, want)
            keep = {}
            undo = None
            if how == "nodir":
                f = os.path.join(d, "no", name)
            elif how == "isdir":
                os.mkdir(out)
                keep = {want: None}
            elif how == "filedir":
                put(os.path.join(d, "file"), b"hello")
                keep = {"file": b"hello"}
                f = os.path.join(d, "file", name)
            elif how == "devfull":
                os.symlink("/dev/full", out)
            elif how == "toolong":
                f = os.path.join(d, "y" * 300 + ext)
            elif how == "nul":
                f = os.path.join(d, "a\0b" + ext)
            elif how == "dangling":
                os.symlink(os.path.join(d, "no", "where"), out)
            elif how == "loop":
                os.symlink(out, out)
            elif how == "devfulldir":
                f = "/dev/full/" + name
            elif how == "nofile":
                soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
                resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
                undo = lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))  # noqa: E731
            elif how in ("perm", "permfile"):
                if how == "permfile":
                    put(out, refs.std_bytes(unique(2, 0)))
                    os.chmod(out, 0o444)
                    keep = listing(d)
                os.chmod(d, 0o755)
                try:
                    os.seteuid(65534)
                except OSError:
                    continue
                undo = lambda: os.seteuid(0)  # noqa: E731
            what = f"{c['ent']} to {name}, {how}"
            err = None
            ctx.evaluations += 1
            try:
                e[3](f, g)
            except Exception as x:  # noqa: BLE001
                err = x
            finally:
                if undo:
                    undo()
            need(err is not None, f"unreported:{c['ent']}:{how}", lambda: f"the save returned normally: {what}")
            left = {a: b for a, b in listing(d).items() if not (os.path.islink(os.path.join(d, a)) and how in ("devfull", "dangling", "loop"))} if how != "devfull" else {}
            for nm, b in left.items():
                need(nm in keep and keep[nm] == b or b is not None, f"leftover:{c['ent']}:{how}", lambda: f"{nm} is left: {what}")
                if keep.get(nm, 0) != b:
                    unreadable(ctx, d, nm, b, f"{c['ent']}:{how}", what)
            for nm, b in keep.items():
                need(nm in left and left[nm] == b, f"destroyed:{c['ent']}:{how}", lambda: f"{nm} changed although the save could not start: {what}")
            need(snapshot(g) == before, f"scene-changed:{c['ent']}", lambda: f"the save changed the scene: {what}")
            ctx.saw(c["ent"], k, ext, how)
    shutil.rmtree(d, ignore_errors=True)


NAMES = ("a.ply", "a", "a.compressed.ply", "a.ply_compressed", "a.PLY", "a.b.ply", "a.b", "a.ply.bak", "a b.ply", "caf\u00e9.ply", "a.compressed", "compressed.ply", ".ply", "ply", "a.Compressed.ply",
         "a.ply.ply", "a.ply_compressed.ply", "a.compressed.ply.compressed.ply", "-a.ply", "a.tar.gz", "..ply", "a.")


def naming(ctx, c):
    """Exactly the documented file is written, for every way of writing the path, replacing a previous file of that name."""
    e = entries()[c["ent"]]
    top = ctx.path("names")
    shutil.rmtree(top, ignore_errors=True)
    n, k = 2, c["k"]
    g = scene(ctx, e[0], "ctor", n, k)
    ref = {}
    cwd = os.getcwd()
    for sub in ("d", "d.ply", "e.compressed.ply", "f.ply_compressed"):
        d = os.path.join(top, sub)
        os.makedirs(d)
        for name, style in itertools.product(NAMES, ("str", "Path", "rel", "dot", "relPath", "up")):
            if style not in ("str", "rel") and name not in NAMES[:4]:
                continue
            if name in ("..ply", "a.") and e[2]:
                continue      # pathlib's idea of a suffix changed between Python versions here
            if name == "..ply" and not e[2]:
                pass
            want, kind = resolve(name, e)
            for prev in ("none", "longer"):
                for x in os.listdir(d):
                    os.unlink(os.path.join(d, x))
                if prev == "longer":
                    put(os.path.join(d, want), previous(kind, None, "longer") + b"tail")
                a = os.path.join(d, name)
                arg = {"str": a, "Path": pathlib.Path(a), "rel": name, "dot": "./" + name, "relPath": pathlib.Path(name), "up": os.path.join("..", sub, name)}[style]
                what = f"{c['ent']}({arg!r}) in {sub}"
                ctx.evaluations += 1
                try:
                    os.chdir(d)
                    e[3](arg, g)
                finally:
                    os.chdir(cwd)
                ls = listing(d)
                need(list(ls) == [want], f"name:{c['ent']}", lambda: f"{what} left {list(ls)}, expected {[want]}")
                if kind not in ref:
                    sane(ls[want], kind, n, k)
                    ref[kind] = ls[want]
                need(ls[want] == ref[kind], f"name:content:{c['ent']}", lambda: f"{what} stored other content than under another name (previous file {prev})")
                others = [x for x in os.listdir(top) if x not in ("d", "d.ply", "e.compressed.ply", "f.ply_compressed")]
                need(not others, f"name:{c['ent']}", lambda: f"{what} created {others} in the parent folder")
                ctx.saw(c["ent"], sub, name, style, prev)
    # through a link: the target is replaced, the link stays
    d = os.path.join(top, "d")
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    name = "l.ply"
    want, kind = resolve(name, e)
    put(os.path.join(d, "target"), b"x" * 99999)
    os.symlink("target", os.path.join(d, want))
    e[3](os.path.join(d, name), g)
    with open(os.path.join(d, want), "rb") as h:
        need(h.read() == ref[kind], f"name:link:{c['ent']}", "reading back through the link gives other content")
    shutil.rmtree(top, ignore_errors=True)


def sequence(ctx, c):
    """A save that fails at some point, then another save to the same name: as if the first had not happened."""
    d = ctx.path("seq")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    es = entries()
    a, b = es[c["a"]], es[c["b"]]
    name = "s.compressed.ply" if c["ext"] else "s.ply"
    ga = scene(ctx, a[0], "ctor", 5, 8, 3)
    gb = ga if c["same"] and a[0] == b[0] else scene(ctx, b[0], "ctor", 2, 3, 4)
    nk = (5, 8) if gb is ga else (2, 3)
    wb, fb = healthy(ctx, d, b, name, gb, *nk)
    wa, fa = healthy(ctx, d, a, name, ga, 5, 8)
    for lim in (0, 1, 100, len(fa) // 2, len(fa) - 1, len(fa), None):
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        try:
            with limited(INF if lim is None else lim):
                a[3](os.path.join(d, name), ga)
        except Exception as x:  # noqa: BLE001
            need(lim is not None and lim < len(fa), f"spurious:{c['a']}", lambda: repr(x))
        else:
            need(lim is None or lim >= len(fa), f"unreported:{c['a']}", f"{lim} of {len(fa)}")
        b[3](os.path.join(d, name), gb)
        ls = listing(d)
        need(ls.get(wb) == fb, f"sequence:{c['b']}", lambda: f"{c['b']} after a {c['a']} of which {lim} of {len(fa)} bytes were accepted stores {len(ls.get(wb) or b'')} bytes, not the {len(fb)} it stores alone")
        ctx.evaluations += 1
        ctx.saw(c, lim)
    shutil.rmtree(d, ignore_errors=True)


FN = {"failing": failing, "faulty": faulty, "uncreatable": uncreatable, "naming": naming, "sequence": sequence}


def cases(tier):
    th = tier == "thorough"
    es = entries()
    forms = FORMS if th else FORMS[:10]
    for i, (nm, e) in enumerate(es.items()):
        exts = ("f.ply", "f.compressed.ply") if e[1] == "auto" else ("f.ply",)
        for k in KS:
            for j, form in enumerate(forms):
                if not usable(e[0], form):
                    continue
                if not th and form != "ctor" and (i + j + KS.index(k)) % 10 and not (form in ("cons", "linear") and k == 3):
                    continue
                for name in exts:
                    prevs = ("none", "longer", "shorter", "other", "garbage") if th and form in ("ctor", "cons") else ("none", "longer") if form == "ctor" and k == 0 else (("none", "longer", "shorter", "other")[(i + j) % 4],)
                    for prev in prevs:
                        n = (0, 3)[1] if k != 8 else 2
                        yield "failing", {"ent": nm, "form": form, "n": n, "k": k, "name": name, "prev": prev, "cuts": "all"}
        for name in exts:
            for n in (0, 1):
                yield "failing", {"ent": nm, "form": "ctor", "n": n, "k": 3, "name": name, "prev": "longer" if n else "none", "cuts": "all"}
            yield "failing", {"ent": nm, "form": "cons", "n": 300, "k": 15, "name": name, "prev": "longer", "cuts": "few" if not th else "edges" if resolve(name, e)[1] == "u" else "all"}
            yield "failing", {"ent": nm, "form": "ctor", "n": 410, "k": 15, "name": name, "prev": "none", "cuts": "edges" if th else "few"}
            if i in (0, 2, 10, 12, 15) or th:
                for form in ("ctor", "cons"):
                    yield "failing", {"ent": nm, "form": form, "n": 13000 if name == "f.ply" and e[1] != "c" else 40000, "k": 15, "name": name, "prev": "none", "cuts": "edges" if th else "few"}
        for name in exts:       # beyond 10 MB
            for form in ("ctor", "cons") if th else (("ctor", "cons")[(i + len(name)) % 2],):
                for w in ("failing", "faulty"):
                    u = resolve(name, e)[1] == "u"
                    yield w, {"ent": nm, "form": form, "n": 45_000 if u else 430_000 if th else 150_000, "k": 15 if u else 3 if th else 0, "name": name, "prev": "none", "cuts": "tiny"}
        for k in KS if th else (0, 3, 15)[i % 2 :][:2]:
            for form in ("ctor", "cons", "none"):
                if usable(e[0], form) and (th or form == ("ctor", "cons", "none")[i % 3] or form == "ctor"):
                    for name in exts:
                        for prev in ("none", "longer", "shorter") if th else (("none", "longer")[(i + k) % 2],):
                            yield "faulty", {"ent": nm, "form": form, "n": 3, "k": k, "name": name, "prev": prev, "cuts": "all" if th or form == "ctor" and k else "few"}
        for name in exts:
            yield "faulty", {"ent": nm, "form": "cons" if i % 2 else "ctor", "n": 300, "k": 15, "name": name, "prev": "none", "cuts": "edges" if th else "few"}
        for k in (0, 15):
            yield "uncreatable", {"ent": nm, "k": k}
        yield "naming", {"ent": nm, "k": 3}
    for a, b in itertools.product(es, es):
        ext = es[a][1] == "auto" and es[b][1] == "auto"
        if not th and (list(es).index(a) + 2 * list(es).index(b)) % 4:
            continue
        for same in (False, True):
            for x in ((False, True) if ext else (False,)):
                yield "sequence", {"a": a, "b": b, "same": same, "ext": x}


def units(tier, seed):
    n = 128
    return [{"m": i, "n": n} for i in range(n)]


def run_unit(ctx, u):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    for i, (w, c) in enumerate(cases(ctx.tier)):
        if i % u["n"] == u["m"]:
            c = {**c, "w": w}
            ctx.case(c, FN[w], ctx, c)
            ctx.sample(c)


def warm(ctx, w):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    d = ctx.path("warm")
    os.makedirs(d, exist_ok=True)
    for nm, e in entries().items():
        if {"u": e[1] in ("auto", "u"), "c": e[1] == "c" and e[0] != "t", "t": e[0] == "t"}[w]:
            for k in KS:
                for form in FORMS:
                    if usable(e[0], form):
                        for name in ("w.ply", "w.compressed.ply"):
                            e[3](os.path.join(d, name), scene(ctx, e[0], form, 3, k))
    ctx.evaluations, ctx.violations = 0, []


def replay(ctx, c):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    ctx.case(c, FN[c["w"]], ctx, c)


_ = errno
