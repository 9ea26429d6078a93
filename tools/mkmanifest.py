#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, "tools"))
import check
NOTE = {
 "C01": "Round trip of generated data x options through the six one-shot functions, judged by a strict RFC 1951/1950/1952 decoder written for this (cross-checked with miniz_oxide), plus exhaustive small inputs.",
 "C02": "Random write/flush/finish/drop histories judged by the strict decoder against the bytes reported consumed.",
 "C03": "Differential: same data fed in different ways, repeated, interleaved and on threads; byte equality.",
 "C04": "Strict decoding of what the sink holds at each flush of random histories.",
 "C05": "Differential: encoder after reset against a new encoder, byte equality over random before/after histories.",
 "C06": "Header, trailer and checksum() recomputed independently after every call; body compared with the raw encoder; a stream beyond 4 GiB.",
 "C07": "Random and enumerated schedules of short writes and Interrupted results; byte equality with an all-accepting sink.",
 "C08": "Random and enumerated schedules of sink errors and Ok(0) with retries; invariants checked after every call against a model of consumed bytes.",
 "C09": "Size bound evaluated on adversarial incompressible inputs and flush histories.",
 "C10": "Every emitted block decoded and compared with reference encodings (optimal Huffman, package-merge, fixed, stored).",
 "C11": "Metamorphic: option values documented as equivalent compared byte for byte; rle/huffman_only output inspected token by token.",
 "C12": "Counting allocator and sink under long random streams; bounds evaluated after every call.",
 "C13": "Every emitted token compared with an exhaustive reference match search.",
 "C15": "Searches and positions looked at counted by a hook over generated slow inputs; sources of all emitted matches ranked by recency.",
 "C16": "Differential: the library built for wasm32 (run in node) against the 64-bit build, over the histories of C01, C02, C05 and C07; byte equality.",
 "C14": "Panics injected at sink calls and between calls; sink calls after the panic counted; aborts observed in child processes or by the harness dying.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "property-based testing: "
T = {
 "C01": "generated inputs and options, round trip through a strict reference decoder",
 "C02": "generated call histories, round trip through a strict reference decoder",
 "C03": "differential/metamorphic over generated splits of the input",
 "C04": "generated histories, decoding the prefix at each flush",
 "C05": "differential over generated history pairs, reset vs new encoder",
 "C06": "generated histories against reference checksums and header model",
 "C07": "generated and enumerated sink schedules, differential",
 "C08": "generated and enumerated fault schedules, model-based invariants",
 "C09": "generated adversarial inputs, size invariant",
 "C10": "generated frequency shapes, reference encoder as oracle",
 "C11": "metamorphic relations over generated options and inputs",
 "C12": "generated streams under a counting allocator, resource invariant",
 "C13": "generated repetitive inputs, exhaustive match search as oracle",
 "C15": "generated inputs with long hash chains, invariant on counted work and on the emitted tokens",
 "C16": "differential over generated histories, 32-bit against 64-bit build",
 "C14": "generated and enumerated panic injection, invariant on sink calls",
}
HOOKS = ["7be69b84d65510b9b2a82b4ecd163008bb8181f1"]
m = {
 "version": 1,
 "setup_cmd": "python3 tools/check.py --setup",
 "checks": [{
   "property": p["id"],
   "quick_cmd": "python3 tools/check.py %s" % p["id"],
   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
   "technique": TECH + T[p["id"]],
   "level": check.LEVEL.get(p["id"], "exploration"),
   "level_note": NOTE[p["id"]] + " No proof: covers the generated cases only; trusts the harness's oracles.",
 } for p in props],
 "hooks": {
  "guard": "--cfg deflate_verif",
  "enable": "RUSTFLAGS='--cfg deflate_verif' cargo build --profile hooked (tools/check.py, for C15 only; the other checks use the public API only)",
  "source_commits": HOOKS,
 },
 "not_applicable": [],
 "notes": "Genuine defects found were repaired (known_findings.txt).",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
