#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a check module is listed as not yet covered."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("exploration", "bounded exhaustive enumeration of sizes x layouts x routes x entry points, byte-exact oracle",
            "Complete within the stated size/route/layout bounds on the real code; values are one distinct bit pattern per cell plus all special float patterns rotated through all columns. CPU tensors only."),
    "C02": ("exploration", "bounded exhaustive enumeration of sizes, quantisation codes and rounding boundaries on the real codec against float64 half-step bounds",
            "Complete over the stated codes, boundaries and value grids of each packed field; combinations of fields are covered pairwise by rotation, not as a full product."),
    "C03": ("exploration", "bounded exhaustive enumeration of every packed field value x reader and of sizes x routes x writers against an independent codec",
            "Every value of every packed field occurs and is decoded by all nine readers; cross products of fields are covered by rotation. Writers compared byte for byte."),
    "C04": ("model_checking", "explicit-state breadth-first exploration of operation histories on the real container, every transition mirrored on plain arrays",
            "All histories up to the stated depth over 57 public operations, from every construction route and SH degree; states keyed by full content, layout and aliasing."),
    "C05": ("model_checking", "explicit-state breadth-first exploration of tensor-container histories mirrored on plain arrays, plus the full product of conversions between containers",
            "All histories up to the stated depth over 57 public tensor operations; conversions over every construction route, mask shape, degree and option. CPU device only."),
    "C06": ("exploration", "exhaustive exploration of unit-conversion histories from every label combination, each state saved by every writer and decoded independently; full product of combining pairs",
            "All conversion sequences up to the stated depth x containers x representations; labels checked against a ground-truth physical scene at every state."),
    "C07": ("exploration", "exhaustive product of construction routes x operations x later mutation sequences x mutated side on the real containers, state fingerprints compared before/after",
            "Every public operation and every mutation sequence up to the stated length; aliasing is decided by actually mutating, not by inspecting memory."),
    "C08": ("model_checking", "explicit-state breadth-first exploration of mask-operation histories on both containers against an ordered name->column map, plus all row patterns x layer subsets",
            "All histories up to the stated depth over 27 mask operations, all combine/apply queries at every state; numba combine kernels exercised over all 2^L row patterns."),
    "C09": ("exploration", "exhaustive enumeration of every index (slices, ints, lists, masks) x size x construction route x container on the real code, and of all pairs of successive selections",
            "Complete within the stated sizes: the selection code has no size-dependent branch beyond them except in NumPy/torch; larger sizes sampled structurally."),
    "C10": ("model_checking", "explicit-state exploration of every list over a palette of scenes x every binary grouping on the real containers, mirrored on plain arrays; all ordered route and mask-shape pairs",
            "All lists up to the stated length and all groupings; operands are reused real objects, so hidden sharing between results would show."),
    "C11": ("fault_enumeration", "exhaustive enumeration of truncation points (every byte) and of inconsistent element counts (and of unreadable sectors and torn reads) x every reader entry point on the real code",
            "Every byte position for small files and headers, every field boundary +-1 for larger ones (every byte in the thorough tier); all count triples from a boundary list."),
    "C12": ("exploration", "exhaustive enumeration of single header edits and pairs of edits over an edit alphabet x layout x reader on the real code, generic PLY parser as oracle",
            "Every edit of the alphabet at every header line, pairs for the smallest layouts; the data section is laid out by the edited header itself so that any other decoding shows."),
    "C13": ("fault_enumeration", "exhaustive enumeration of the byte at which storage stops accepting data x save entry point x scene form x previous file on the real code, plus reservable-but-full, recovering, tearing and interrupting storage and failing close (C-library fault injector), all creation failures, name forms and failed-then-repeated pairs",
            "Every byte for small files; around header end, buffer boundaries and end of file for large ones. Fault injected by a per-process file-size limit, exact to the byte."),
    "C14": ("model_checking", "stateless model checking of the real code under a controlled thread scheduler: every schedule within a preemption bound, reduced by a fingerprint of the shared state",
            "All ordered pairs of 56 operations; preemptions at source lines (bytecodes in the thorough tier). Code inside NumPy, Torch and compiled kernels runs atomically."),
    "C15": ("exploration", "exhaustive enumeration of texture codes, tags, labels, geometries and container forms on hand-assembled archives against an independent float64 decoder; all single removals and size/count edits",
            "Every code of every channel and every 16-bit position code occurs; cross products of channels are covered by decorrelated permutations. WebP itself is trusted."),
    "C16": ("exploration", "exhaustive enumeration of all half-precision and bfloat16 values and all clamp neighbours x clamp parameters x shapes x layouts x dtypes x thread counts on the real kernels against float64 formulas",
            "Complete over the 16-bit value sets and the stated grids; other float32 values are covered in the thorough tier by every exponent x 64 mantissas."),
    "C17": ("exploration", "exhaustive enumeration of factory presets, of value patterns straddling every labelling threshold in both containers and when saving, and of single shape faults x every writer",
            "Complete over the stated alphabets of values and faults; agreement is checked between every constructor, factory and raw-array writer."),
    "C18": ("model_checking", "explicit-state breadth-first exploration of tensor-scene histories on the real autograd, every transition mirrored by a model that carries origins and derivatives",
            "All histories up to the stated depth from 15 kinds of scene; every optimiser-step placement before up to two operations. Elementary torch derivatives are trusted; CPU device only."),
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(ROOT, "gsmc/checks", i.lower() + ".py")):
        lv, tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet (see DESIGN.md for the plan)"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import gsply, numpy, numba'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API of the code in /repo/src (imported in fresh worker processes with a fresh compilation cache)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not yet")
