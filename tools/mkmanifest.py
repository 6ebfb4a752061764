#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "stateless exhaustive exploration of the real code: all operation sequences up to a depth, "
T = {
 "C01": (X + "point-query oracle", "every history in the bounds is executed on the real filter, each insert's coin is an explored choice; bounds in the evidence"),
 "C02": (X + "all range queries over all pairs of probes", "as C01, judged by all probe ranges in every state"),
 "C03": (X + "lock-step twins (integer filter against byte-string filter)", "every history is executed on both filters and all answers are compared in every state"),
 "C04": ("exhaustive enumeration of loader x size x distribution x end-of-domain cases on the real code", "sizes around every group boundary; loaders compared pairwise; all continuations of depth 1-2"),
 "C05": (X + "deletes interleaved everywhere, point and range oracle", "up to two copies of each key; includes windows at store ends and size changes"),
 "C06": (X + "with infix-size reductions at every position", "stores of every size grade are reduced by several amounts; point, range and footprint oracle"),
 "C07": (X + "with a serialise/restore round trip at every position, lock-step with the original", "byte-for-byte image comparison, guard bytes, buffer overwritten after restoring"),
 "C08": (X + "precision oracle (no spurious positives beyond the retained bits)", "probes at and around the edges of the retained blocks in every state"),
 "C09": (X + "queried twin against unqueried twin, images byte for byte", "all probe queries in both orders in every state"),
 "C10": (X + "under address/undefined-behaviour instrumentation with exact allocation accounting", "exhaustive histories; instrumentation is the monitor of each execution; unaligned word reads, zero-length VLAs and null arguments of zero-length memory functions are not counted"),
 "C11": (X + "lock-step with a sorted-map model", "the index is driven directly; all iterator walks compared in every state"),
 "C12": (X + "lock-step with a sorted-map model", "the integer index is driven directly; all iterator walks compared in every state"),
 "C13": ("controlled-scheduler exploration of the real code: all interleavings of small concurrent programs up to a preemption bound, linearizability oracle", "scheduling points are all conflicting atomic and racy plain accesses; atomic stores weaker than sequentially consistent may be delayed (x86-TSO); preemption-bounded, bounds in the evidence"),
 "C15": (X + "under address/undefined-behaviour instrumentation with exact allocation accounting", "the indexes are driven directly through all interfaces; every execution on an index of its own; instrumentation is the monitor of each execution"),
 "C14": ("exhaustive enumeration of bounded argument spaces of the real primitives against naive definitions", "all structured words x positions; all ranges and distances of small bitmaps"),
}
claimed = [l.strip() for l in open(os.path.join(V, "tools", "claimed.txt")) if l.strip()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
