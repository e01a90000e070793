"""Controlled scheduler: real threads run real library calls, and hand over control only where a schedule says so.

Every source line (or bytecode instruction) of the library is a scheduling point. A schedule is a list of segments (thread, points to
pass before handing over, or None to run to the end). A thread that blocks (on a lock held by a paused one) is passed over."""
import itertools
import os
import sys
import threading
import types

import numpy as np

SRC = None


def src():
    global SRC
    if SRC is None:
        import gsply
        SRC = os.path.dirname(os.path.abspath(gsply.__file__)) + os.sep
    return SRC


class Actor:
    """A persistent thread that runs jobs under the scheduler."""

    def __init__(self, opcodes=False):
        self.job = threading.Semaphore(0)
        self.go = threading.Semaphore(0)
        self.pause = threading.Semaphore(0)
        self.fn = None
        self.opcodes = opcodes
        self.traced = True
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.job.acquire()
            fn = self.fn
            self.go.acquire()
            if self.traced:
                sys.settrace(self.tracer)
            try:
                self.result = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                self.result = ("raised", type(e).__name__, str(e)[:300])
            finally:
                sys.settrace(None)
            self.finished = True
            self.pause.release()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(src()):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.count += 1
            if self.trail is not None:
                self.trail.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno, self.look(frame) if self.probe else None))
            if self.count == self.stop:
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                self.pause.release()
                self.go.acquire()
        return self.local

    def look(self, frame):
        """Fingerprint at this point; with `visits`, only the first few times a line is reached."""
        if self.visits:
            k = (frame.f_code, frame.f_lineno)
            n = self.seen[k] = self.seen.get(k, 0) + 1
            if n > self.visits:
                return self.last
        self.last = self.probe()
        return self.last

    def start(self, fn, traced=True, trail=False, opcodes=False, probe=None, visits=0):
        self.probe, self.visits, self.seen, self.last = probe, visits, {}, None
        self.fn, self.traced, self.opcodes = fn, traced, opcodes
        self.count, self.stop, self.finished, self.result, self.where = 0, None, False, None, None
        self.trail = [] if trail else None
        self.job.release()


class Deadlock(Exception):
    pass


POOL = []


def run(fns, plan, traced=None, trail=False, opcodes=False, patience=1.5, probe=None, visits=0):
    """Run fns (one per thread) under the plan [(thread, stop or None)]. Returns (results, points passed, blocked count, places)."""
    while len(POOL) < len(fns):
        POOL.append(Actor())
    act = POOL[: len(fns)]
    for i, (a, f) in enumerate(zip(act, fns)):
        a.start(f, traced is None or traced[i], trail, opcodes, probe, visits)
    blocked = 0
    waiting = set()      # threads running on their own after having been passed over
    places = []
    for i, stop in list(plan) + [(i, None) for i in range(len(fns))]:
        a = act[i]
        if i in waiting:
            if a.pause.acquire(timeout=patience if not a.finished else 0):
                waiting.discard(i)
            else:
                continue
        if a.finished:
            continue
        a.stop = a.count + stop if stop is not None else None
        if stop == 0:
            continue
        a.go.release()
        if not a.pause.acquire(timeout=patience):
            blocked += 1
            waiting.add(i)
        elif not a.finished:
            places.append(a.where)
    for _ in range(40):
        left = [i for i in range(len(fns)) if not (act[i].finished and i not in waiting)]
        if not left:
            break
        for i in left:
            a = act[i]
            if i in waiting:
                if not a.pause.acquire(timeout=0.5):
                    continue
                waiting.discard(i)
            if not a.finished:
                a.stop = None
                a.go.release()
                if not a.pause.acquire(timeout=0.5):
                    waiting.add(i)
    else:
        del POOL[:]
        raise Deadlock("the threads block each other")
    r = [a.result for a in act], [a.count for a in act], blocked, places
    return (*r, [a.trail for a in act]) if trail else r


# --- first-use state -----------------------------------------------------------------------------------

class Pristine:
    """The library's module-level state right after import, restorable: bindings, containers, function and class attributes, caches."""

    def __init__(self):
        self.mods = [m for n, m in sys.modules.items() if n == "gsply" or n.startswith("gsply.")]
        self.items = []
        seen = set()
        for m in self.mods:
            self.take(vars(m), seen)

    def take(self, ns, seen):
        self.items.append((ns, dict(ns)))
        for v in list(ns.values()):
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, (dict, list, set, bytearray)) and v is not ns and not isinstance(v, types.MappingProxyType):
                self.items.append((v, v.copy()))
            elif isinstance(v, np.ndarray) and v.flags.writeable:
                self.items.append((v, v.copy()))
            elif isinstance(v, types.FunctionType) and v.__module__ and v.__module__.startswith("gsply"):
                self.items.append((v.__dict__, dict(v.__dict__)))
                if v.__defaults__:
                    for d in v.__defaults__:
                        if isinstance(d, (dict, list, set)):
                            self.items.append((d, d.copy()))
            elif isinstance(v, type) and v.__module__.startswith("gsply"):
                self.items.append((v, dict(vars(v))))
                for x in vars(v).values():
                    if isinstance(x, (dict, list, set)) and id(x) not in seen:
                        seen.add(id(x))
                        self.items.append((x, x.copy()))
                    elif isinstance(x, types.FunctionType):
                        self.items.append((x.__dict__, dict(x.__dict__)))

    def restore(self):
        for live, old in self.items:
            if isinstance(live, dict):
                if len(live) != len(old) or any(live.get(k, self) is not v for k, v in old.items()):
                    for k in [k for k in live if k not in old]:
                        if not isinstance(live[k], types.ModuleType):
                            del live[k]
                    for k, v in old.items():
                        if live.get(k, self) is not v:
                            live[k] = v
            elif isinstance(live, type):
                now = vars(live)
                for k in [k for k in now if k not in old and not k.startswith("__")]:
                    delattr(live, k)
                for k, v in old.items():
                    if now.get(k) is not v and not k.startswith("__"):
                        setattr(live, k, v)
            elif isinstance(live, np.ndarray):
                live[...] = old
            elif isinstance(live, set):
                if live != old:
                    live.clear()
                    live |= old
            elif list(live) != list(old):
                live[:] = old
        for m in self.mods:
            for v in list(vars(m).values()):
                c = getattr(v, "cache_clear", None)
                if callable(c) and not isinstance(v, type):
                    try:
                        c()
                    except Exception:  # noqa: BLE001, S110
                        pass


# --- shared state seen by the library -----------------------------------------------------------------

LOCKS = (type(threading.Lock()), type(threading.RLock()))
ATOMS = (str, bytes, int, float, bool, type(None), types.ModuleType, types.BuiltinFunctionType, np.dtype, np.ufunc)


class State:
    """Fingerprint of everything calls could communicate through: the library's module state, reachable from every module global
    (containers, instances, function attributes, defaults and closures, class attributes, cache sizes, locks), and extra arrays and dicts."""

    def __init__(self, extra=()):
        self.roots = [vars(m) for n, m in sorted(sys.modules.items()) if n == "gsply" or n.startswith("gsply.")]
        self.names = {n: vars(m) for n, m in sorted(sys.modules.items()) if n == "gsply" or n.startswith("gsply.")}
        self.extra = list(extra)
        self.kids = {}

    def __call__(self):
        return hash(self.full())

    def effect(self, old, new):
        """Names of what differs between two full fingerprints."""
        a, b = dict((r[0], r[1:]) for r in old), dict((r[0], r[1:]) for r in new)
        names = {id(r): n for n, r in self.names.items()}
        res = set()
        for i in a.keys() | b.keys():
            if a.get(i) != b.get(i):
                if i in names and i in a and i in b:
                    x, y = a[i][0], b[i][0]
                    keys = list(self.names[names[i]])
                    res.update(f"{names[i]}.{k}" for k, u, v in itertools.zip_longest(keys, x, y) if u != v) if len(x) == len(y) else res.add(names[i])
                elif i in a:
                    res.add(f"#{i}")
        return tuple(sorted(res))

    def full(self):
        res, seen = [], set()
        stack = [*self.roots, *self.extra]
        while stack:
            x = stack.pop()
            i = id(x)
            if i in seen:
                continue
            seen.add(i)
            if isinstance(x, np.ndarray):
                res.append((i, x.shape, hash(x.tobytes()) if x.dtype != object and x.nbytes < 1 << 22 else None))
                continue
            if isinstance(x, LOCKS):
                res.append((i, repr(x).split(" object")[0]))
                continue
            if isinstance(x, dict):
                ids = tuple(map(id, x.values()))
                vals = x.values
            elif isinstance(x, (list, tuple)):
                ids, vals = tuple(map(id, x)), x.__iter__
            elif isinstance(x, (set, frozenset)):
                ids, vals = tuple(sorted(map(id, x))), x.__iter__
            elif isinstance(x, bytearray):
                res.append((i, bytes(x)))
                continue
            elif isinstance(x, types.CellType):
                try:
                    v = x.cell_contents
                except ValueError:
                    v = None
                ids, vals = (id(v),), [v].__iter__
            else:
                vals = self.parts(x).__iter__
                ids = None
                c = getattr(x, "cache_info", None)
                if c is not None and not isinstance(x, type):
                    res.append((i, c()))
            old = self.kids.get(i)
            if ids is None or old is None or old[0] != ids:
                old = self.kids[i] = (ids, [v for v in vals() if self.mutable(v)], x)
            res.append((i, ids))
            stack.extend(old[1])
        return tuple(sorted(res, key=lambda r: r[0]))

    @staticmethod
    def mutable(v):
        if isinstance(v, ATOMS):
            return False
        if isinstance(v, (dict, list, tuple, set, frozenset, bytearray, np.ndarray, types.CellType, *LOCKS)):
            return True
        m = getattr(v, "__module__", None) or ""
        if isinstance(v, (type, types.FunctionType)):
            return m.startswith("gsply")
        if hasattr(v, "cache_info"):
            return True
        return (type(v).__module__ or "").startswith("gsply") or type(v).__module__ in ("collections", "contextvars", "io", "queue")

    @staticmethod
    def parts(x):
        if isinstance(x, types.FunctionType):
            return [x.__dict__, *(x.__closure__ or ()), *(x.__defaults__ or ()), *(x.__kwdefaults__ or {}).values(), *([x.__wrapped__] if hasattr(x, "__wrapped__") else [])]
        if isinstance(x, type):
            return [v for k, v in vars(x).items() if not (k.startswith("__") and k.endswith("__"))]
        return [getattr(x, "__dict__", None) or {}]
