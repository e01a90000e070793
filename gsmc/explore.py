"""Explicit-state exploration of operation histories on the real objects.

A state is the library object itself (identified by a fingerprint of everything it holds: every array's values, dtype, strides,
writability and aliasing, and every other attribute) together with the reference model's state. States are reached by replaying
the operation path from the initial scene, so the explored object is always one the public API really produced."""
import hashlib

import numpy as np

from gsmc.core import Violation, need
from gsmc.data import ATTRS, plain_of, same, same_masks


def fingerprint(g):
    """Hash of everything an object holds, including memory layout and aliasing between its arrays."""
    h = hashlib.blake2b(digest_size=12)
    roots = {}

    def put(name, v):
        h.update(name.encode())
        if hasattr(v, "detach") and hasattr(v, "storage_offset"):
            st = v.untyped_storage()
            r = roots.setdefault(st.data_ptr(), len(roots))
            h.update(repr((str(v.dtype), tuple(v.shape), v.stride(), r, v.storage_offset(), v.requires_grad)).encode())
            h.update(v.detach().contiguous().numpy().tobytes())
        elif isinstance(v, np.ndarray):
            b = v
            while isinstance(b.base, np.ndarray):
                b = b.base
            ptr = b.__array_interface__["data"][0]
            r = roots.setdefault(ptr, len(roots))
            h.update(repr((v.dtype.str, v.shape, v.strides, r, v.__array_interface__["data"][0] - ptr, v.flags.writeable)).encode())
            h.update(v.tobytes())
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                put(str(k), v[k])
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                put(str(i), x)
        else:
            h.update(repr(v).encode())
    for k in sorted(vars(g)):
        put(k, vars(g)[k])
    return h.digest()


def close_sync(g, p, approx, what, rtol=2e-5, atol=2e-5):
    """Attributes in `approx` may differ by rounding; afterwards the model takes the library's exact value."""
    got = plain_of(g)
    for a in approx:
        x, y = getattr(got, a), getattr(p, a)
        need(x.shape == y.shape, f"{what}:{a}:shape", lambda: f"{a} has shape {x.shape}, expected {y.shape}")
        need(bool(np.all(np.isfinite(x.astype(np.float64)))) or not np.all(np.isfinite(y)), f"{what}:{a}:finite",
             lambda: f"{a} is not finite")
        t = approx[a] if isinstance(approx, dict) else (rtol, atol)
        d = np.abs(x.astype(np.float64) - y.astype(np.float64))
        lim = t[1] + t[0] * np.abs(y.astype(np.float64))
        need(bool(np.all(d <= lim)), f"{what}:{a}:value",
             lambda: f"{a} {x[d > lim].ravel()[:4]} expected {y[d > lim].ravel()[:4]}")
        setattr(p, a, x.copy())
    return got


class Explorer:
    def __init__(self, ctx, ops, observe, case_base, max_n=7, what="state"):
        self.ctx, self.ops, self.observe, self.case_base, self.max_n, self.what = ctx, ops, observe, case_base, max_n, what
        self.by_name = {o.name: o for o in ops}

    def replay_lib(self, make, path):
        g = make()
        for o in path:
            g = self.by_name[o].lib(g, self.ctx)
        return g

    def step(self, make, path, p, op):
        """Execute one transition from the state reached by `path`; returns (g, model) or None if not applicable."""
        if not op.ok(p):
            return None
        g = self.replay_lib(make, path)
        q, approx = op.model(p.copy())
        err = None
        try:
            r = op.lib(g, self.ctx)
        except Violation:
            raise
        except (ValueError, IndexError) as e:
            err = e
            r = g
        if q is None:           # the model says: rejected, nothing changed
            need(err is not None, f"{op.name}:not-rejected", "the operation should have been rejected")
            q = p.copy()
        elif err is not None:
            raise err
        if callable(approx):
            approx(plain_of(r), q)
        elif approx:
            close_sync(r, q, approx, op.name)
        if op.sync_masks:
            q.masks, q.names = op.sync_masks(r, q)
        got = plain_of(r)
        same(got, q, op.name)
        need(len(r) == len(q), f"{op.name}:len")
        return r, q

    def run(self, init_name, make, p0, depth, first=None):
        """Breadth-first to `depth`. `first` restricts the first operation (work splitting)."""
        ctx = self.ctx
        seen = set()
        frontier = [((), p0)]
        g = make()
        seen.add(fingerprint(g))
        if first is None:
            ctx.case({**self.case_base, "init": init_name, "path": []}, self.observe, ctx, g, p0.copy())
        for d in range(depth):
            nxt = []
            for path, p in frontier:
                for op in self.ops:
                    if d == 0 and first is not None and op.name not in first:
                        continue
                    case = {**self.case_base, "init": init_name, "path": list(path) + [op.name]}
                    r = ctx.case(case, self.step, make, path, p, op)
                    if r is None:
                        continue
                    ctx.transitions += 1
                    ctx.traces += 1
                    g, q = r
                    fp = fingerprint(g)
                    if fp in seen:
                        continue
                    seen.add(fp)
                    ctx.states += 1
                    ctx.saw(fp)
                    ctx.case(case, self.observe, ctx, g, q.copy())
                    if len(q) <= self.max_n:
                        nxt.append((path + (op.name,), q))
            frontier = nxt
        return frontier

    def replay(self, init_name, make, p0, path):
        """Re-run one path with all checks on the way."""
        ctx = self.ctx
        p = p0
        case = {**self.case_base, "init": init_name, "path": path}
        if not path:
            ctx.case(case, self.observe, ctx, make(), p0.copy())
        for i in range(len(path)):
            r = ctx.case(case, self.step, make, path[:i], p, self.by_name[path[i]])
            if r is None:
                return
            g, p = r
            ctx.case(case, self.observe, ctx, g, p.copy())


class Op:
    def __init__(self, name, lib, model, ok=None, sync_masks=None):
        self.name, self.lib, self.model = name, lib, model
        self.ok = ok or (lambda p: True)
        self.sync_masks = sync_masks
