"""Shared machinery: violations, per-case bookkeeping, heartbeats."""
import hashlib
import json
import mmap
import os
import shutil
import struct
import tempfile
import traceback

MAX_VIOLATIONS_PER_UNIT = 8
HB_SIZE = 16384


class Violation(Exception):
    """The property is broken on the current case. `key` identifies the failure class."""

    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class StopUnit(Exception):
    pass


def jdump(x):
    return json.dumps(x, sort_keys=True, default=str)


class Ctx:
    """Collects what one work unit covered and what it found."""

    def __init__(self, prop, tier, seed, scratch, hb_path=None):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.evaluations = 0
        self.distinct = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.capped = False
        self._case = None
        self._hb = None
        if hb_path:
            f = open(hb_path, "r+b")
            self._hb = mmap.mmap(f.fileno(), HB_SIZE)
            self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    # --- progress -----------------------------------------------------------------
    def beat(self, case=None):
        if case is not None:
            self._case = case
        if self._hb is not None:
            self._n += 1
            s = jdump(self._case).encode()[: HB_SIZE - 16]
            self._hb[8:12] = struct.pack("<I", len(s))
            self._hb[12 : 12 + len(s)] = s
            self._hb[0:8] = struct.pack("<Q", self._n)

    # --- results ------------------------------------------------------------------
    def saw(self, *what):
        """Register a distinct, non-trivial observation."""
        h = hashlib.blake2b(digest_size=8)
        for w in what:
            h.update(w if isinstance(w, (bytes, bytearray, memoryview)) else repr(w).encode())
        self.distinct.add(h.hexdigest())

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def violation(self, key, msg, case=None):
        self.violations.append({"key": key, "msg": msg[:2000], "case": case if case is not None else self._case})
        if len({v["key"] for v in self.violations}) >= MAX_VIOLATIONS_PER_UNIT or len(self.violations) >= 60:
            raise StopUnit

    def case(self, case, fn, *args, **kw):
        """Run one case; an escaping exception is a violation of the property."""
        self.beat(case)
        self.evaluations += 1
        try:
            return fn(*args, **kw)
        except StopUnit:
            raise
        except Violation as e:
            self.violation(e.key, e.msg, case)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa: BLE001
            tb = traceback.format_exc().strip().splitlines()
            self.violation("unexpected-exception:" + type(e).__name__, f"{e} | " + " / ".join(tb[-7:]), case)
        return None

    def path(self, name):
        return os.path.join(self.scratch, name)

    def result(self):
        return {
            "evaluations": self.evaluations, "distinct": sorted(self.distinct), "states": self.states,
            "transitions": self.transitions, "traces": self.traces, "samples": self.samples,
            "violations": self.violations, "capped": self.capped, "notes": self.notes,
        }


def need(cond, key, msg="", *fmt):
    if not cond:
        raise Violation(key, (msg() if callable(msg) else (msg % fmt if fmt else msg)))


class scratch_dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="gsmc.")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
