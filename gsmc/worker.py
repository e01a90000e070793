"""A worker process: receives unit descriptions on fd 3, answers on fd 4 (JSON lines)."""
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback


def main():
    prop, tier, seed, scratch, hb, rfd, wfd = sys.argv[1:8]
    rd = os.fdopen(int(rfd), "r")
    wr = os.fdopen(int(wfd), "w")
    faulthandler.enable(open(os.path.join(scratch, "fault.log"), "w"))
    from gsmc.core import Ctx, StopUnit

    mod = importlib.import_module("gsmc.checks." + prop.lower())
    wr.write(json.dumps({"ready": True}) + "\n")
    wr.flush()
    for line in rd:
        unit = json.loads(line)
        ctx = Ctx(prop, tier, int(seed), scratch, hb)
        t = time.time()
        err = None
        try:
            ctx.beat({"unit": unit})
            if unit.get("_warm") is not None:
                mod.warm(ctx, unit["_warm"])
            elif unit.get("_replay") is not None:
                mod.replay(ctx, unit["_replay"])
            else:
                mod.run_unit(ctx, unit)
        except StopUnit:
            ctx.capped = True
        except BaseException:  # noqa: BLE001
            err = traceback.format_exc()
        r = ctx.result()
        r["error"] = err
        r["wall"] = time.time() - t
        wr.write(json.dumps(r, default=str) + "\n")
        wr.flush()


if __name__ == "__main__":
    main()
