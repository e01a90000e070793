"""Supervisor: runs one check in worker processes, decides the verdict, writes evidence."""
import importlib
import json
import os
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
HANG = 240.0          # seconds without a completed case
DEADLINE = {"quick": 420.0, "thorough": 800.0}


class Worker:
    def __init__(self, idx, prop, tier, seed, top, env):
        self.dir = os.path.join(top, f"w{idx}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.hb = os.path.join(self.dir, "hb")
        with open(self.hb, "wb") as f:
            f.write(b"\0" * 16384)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen(
            [PY, "-m", "gsmc.worker", prop, tier, str(seed), self.dir, self.hb, str(r1), str(w2)],
            pass_fds=(r1, w2), cwd=VERIF, env=env, stdin=subprocess.DEVNULL, stdout=self.log,
            stderr=subprocess.STDOUT, start_new_session=True)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""
        self.unit = None
        self.last = -1
        self.last_t = time.time()
        self.ready = False

    def send(self, unit):
        self.unit = unit
        self.last_t = time.time()
        os.write(self.w, (json.dumps(unit) + "\n").encode())

    def poll_beat(self):
        with open(self.hb, "rb") as f:
            b = f.read()
        n = struct.unpack("<Q", b[:8])[0]
        if n != self.last:
            self.last, self.last_t = n, time.time()
        return time.time() - self.last_t

    def current_case(self):
        with open(self.hb, "rb") as f:
            b = f.read()
        n = struct.unpack("<I", b[8:12])[0]
        try:
            return json.loads(b[12 : 12 + n].decode())
        except Exception:
            return {"raw": b[12 : 12 + n].decode("utf8", "replace")}

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass

    def tail(self):
        out = ""
        for n in ("log", "fault.log"):
            try:
                with open(os.path.join(self.dir, n), errors="replace") as f:
                    out += f.read()[-1500:]
            except OSError:
                pass
        return out


def load_known(prop):
    known = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"^open: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("gsmc.checks." + prop.lower())
    top = tempfile.mkdtemp(prefix="gsmc.")
    try:
        return run(prop, tier, seed, mod, top, t0, replay)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run(prop, tier, seed, mod, top, t0, replay):
    env = dict(os.environ)
    env.update({
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": os.pathsep.join(filter(None, (VERIF, os.environ.get("GSMC_SRC")))), "NUMBA_CACHE_DIR": os.path.join(top, "numba"),
        "TORCHINDUCTOR_CACHE_DIR": os.path.join(top, "inductor"), "TRITON_CACHE_DIR": os.path.join(top, "triton"),
        "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "2", "HOME": top, "TMPDIR": top,
    })
    env.setdefault("NUMBA_NUM_THREADS", "4")
    env.setdefault("TORCHDYNAMO_DISABLE", "1")
    env.update(getattr(mod, "ENV", {}))
    if getattr(mod, "SHIM", False):
        from gsmc import shim
        env["GSMC_SHIM"] = env["LD_PRELOAD"] = shim.make(top)
    os.makedirs(env["NUMBA_CACHE_DIR"])
    nwork = int(os.environ.get("GSMC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    violations, totals = [], {"evaluations": 0, "states": 0, "transitions": 0, "traces": 0}
    distinct, samples, notes = set(), [], {}
    capped = False
    errors = []
    ctr = [0]
    retried = {}
    deadline = t0 + DEADLINE[tier]

    def phase(units, parallel, hang):
        nonlocal capped
        queue = list(units)
        workers = []
        n = min(parallel, len(queue))

        def spawn():
            ctr[0] += 1
            workers.append(Worker(ctr[0], prop, tier, seed, top, env))

        for _ in range(n):
            spawn()
        while workers:
            fds = {w.r: w for w in workers}
            rl, _, _ = select.select(list(fds), [], [], 0.5)
            for fd in rl:
                w = fds[fd]
                data = os.read(fd, 1 << 20)
                if not data:
                    rc = w.p.wait()
                    tail = w.tail()
                    case = w.current_case() if w.unit else None
                    w.kill()
                    workers.remove(w)
                    if w.unit is None and not w.ready:
                        errors.append(f"worker failed to start rc={rc}: {tail}")
                    elif w.unit is not None:
                        k = json.dumps(w.unit, sort_keys=True)
                        if rc == -signal.SIGKILL and retried.get(k, 0) < 1:
                            retried[k] = 1
                            queue.append(w.unit)  # possibly ended for lack of memory: try once more
                        else:
                            violations.append({"key": f"process-died:{rc}", "case": case, "unit": w.unit,
                                               "msg": f"the process exploring this case died (rc={rc}). {tail[-1200:]}"})
                    if queue and time.time() < deadline and len(violations) < 40:
                        spawn()
                    continue
                w.buf += data
                while b"\n" in w.buf:
                    line, w.buf = w.buf.split(b"\n", 1)
                    r = json.loads(line)
                    if r.get("ready"):
                        w.ready = True
                    else:
                        for k in totals:
                            totals[k] += r[k]
                        distinct.update(r["distinct"])
                        for s in r["samples"]:
                            if len(samples) < 6:
                                samples.append(s)
                        for k, v in r["notes"].items():
                            if isinstance(v, (int, float)):
                                notes[k] = notes.get(k, 0) + v
                            else:
                                notes.setdefault(k, v)
                        for v in r["violations"]:
                            v["unit"] = w.unit
                            violations.append(v)
                        capped = capped or r["capped"]
                        if r["error"]:
                            errors.append(f"unit {w.unit}: {r['error']}")
                        if os.environ.get("GSMC_VERBOSE"):
                            print(f"[{time.time()-t0:6.1f}s] {w.unit} {r['wall']:.1f}s ev={r['evaluations']} "
                                  f"st={r['states']} tr={r['transitions']} viol={len(r['violations'])}", flush=True)
                    if queue and time.time() < deadline and len(violations) < 40:
                        w.send(queue.pop(0))
                    else:
                        if queue:
                            capped = True
                        w.kill()
                        workers.remove(w)
                        break
            for w in list(workers):
                if w.unit is not None and w.poll_beat() > hang:
                    case = w.current_case()
                    violations.append({"key": "hang", "case": case, "unit": w.unit,
                                       "msg": f"no progress for {hang:.0f} s"})
                    w.kill()
                    workers.remove(w)
                    if queue and time.time() < deadline:
                        spawn()
                elif time.time() > deadline + 30:
                    capped = True
                    w.kill()
                    workers.remove(w)

    if replay:
        with open(replay) as f:
            rp = json.load(f)
        phase([{"_replay": rp["case"], **({"_unit": rp.get("unit")} if rp.get("unit") else {})}], 1, 600)
    else:
        warm = getattr(mod, "WARM", [])
        if warm:
            phase([{"_warm": w} for w in warm], nwork, 600)
        units = mod.units(tier, seed)
        phase(units, nwork, float(getattr(mod, "HANG", HANG)))

    known = load_known(prop)
    hits, fresh = {}, []
    for v in violations:
        for k, desc in known:
            if re.fullmatch(k, v["key"]):
                hits.setdefault(k, desc)
                break
        else:
            fresh.append(v)
    for k, desc in hits.items():
        print(f"KNOWN-FINDING: property={prop} {desc}")

    wall = time.time() - t0
    level = mod.LEVEL
    cov = {"samples": samples, "exhaustive": (not capped) and not errors}
    cov.update(notes)
    if level == "model_checking":
        cov.update(states=totals["states"], transitions=totals["transitions"],
                   traces_validated_against_impl=totals["traces"])
        if totals["evaluations"]:
            cov["cases"] = totals["evaluations"]
    else:
        cov.update(evaluations=totals["evaluations"], distinct_nontrivial=len(distinct), rule=mod.RULE)
    if level == "model_checking":
        cov["distinct_observations"] = len(distinct)
    cov["bound"] = mod.BOUND[tier]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        first = None
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:60]
            path = os.path.join(rdir, f"{prop}-{name}.json")
            if not replay:
                with open(path, "w") as f:
                    json.dump({"property": prop, **v}, f, indent=1, default=str)
            first = first or path
            print(f"  {v['key']}: {v['msg'][:700]}\n    case: {json.dumps(v['case'])[:500]}")
        for e in errors:
            print("note: harness error:", e[-800:])
        print(f"VIOLATION property={prop} replay={replay or first}")
        print(f"  ({len(fresh)} violating cases, {len(seen)} classes; rerun one with: ./check {prop} --replay <path>)")
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    print(f"OK property={prop} tier={tier} wall={wall:.1f}s evaluations={totals['evaluations']} "
          f"distinct={len(distinct)} states={totals['states']} transitions={totals['transitions']} "
          f"traces={totals['traces']} exhaustive={cov['exhaustive']}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
