#!/usr/bin/env python3
"""Writes MANIFEST.json. Usage: tools/manifest.py (from /verif)."""
import json, subprocess
NOTE = {
 "C01": "Seeded sampling of documents, read splits, interrupted reads and hash seeds against the real loader; trusts the reference model of JSON ABI documents. A clean batch is evidence, not proof.",
 "C02": "Seeded sampling of failing and ending streams at chosen byte positions, with recovery; trusts the model's notion of where a document is complete.",
 "C03": "Seeded sampling of save/crash/restart/load chains on a simulated disk (prefix, zero tail, stale tail, torn sectors) and failing writers; trusts the JSON model.",
 "C04": "Seeded sampling of byte-level and structural damage to documents; steps and memory of the loader are bounded by the simulator; stack overflow and aborts are observed from outside the run's process.",
 "C05": "Seeded search over interleavings of real threads released one at a time at compiler-inserted edges, allocations and futex waits; sequentially consistent memory only.",
 "C06": "Seeded discrete-event simulation of clients and a node over a faulty link; real encoder and decoder at both ends, reference model as oracle.",
 "C07": "Seeded sampling of hostile payloads under an accounting allocator and a step counter; bounds are constants times the model's count of bytes and elements present.",
 "C08": "Seeded discrete-event simulation of log delivery with loss, duplication, reordering, replay and damage; reference model as oracle.",
 "C09": "Seeded discrete-event simulation of a chain with reorganisations and subscriptions; the node evaluates the filter's JSON form by the Ethereum matching rule.",
 "C10": "Seeded sampling of runs of the real executable under an interposed operating-system layer (reads, opens, writes, allocations, hash seed); the interposition stands in for the kernel's failures.",
 "C11": "Seeded sampling of ABI files, hash seeds, read splits and read faults against the real expansion code, plus compilations with the real macro under injected file faults.",
 "C12": "Seeded discrete-event simulation with bindings compiled from committed ABI files by the real macro; the set of ABIs is fixed, values and damage are sampled.",
}
CLAIMED = [l.strip() for l in open("tools/claimed")]
NA = {
 "P01": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Exercised only as the model oracle inside C05, C06 and C12.",
 "P02": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Exercised only inside C06 and C12.",
 "P03": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Exercised only inside C03 and C04.",
 "P04": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Exercised only inside C10.",
 "P05": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Exercised only inside C05, C06 and C08.",
 "P06": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Exercised only inside C06 and C09.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "cfg(ethabi_sim)", "enable": "derivesim/build.rs emits cargo:rustc-cfg=ethabi_sim when building /repo/derive/src/lib.rs as an ordinary library", "source_commits": hook},
 "checks": [{
   "property": p, "quick_cmd": f"VERIF_TIER=quick ./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": NOTE[p]} for p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in ids if p not in CLAIMED],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
