#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which properties are claimed, and why the others are not."""
import json, os, glob, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
specs = "\n".join(open(f).read() for f in glob.glob(os.path.join(root, "contracts", "*.spec")))
COMMON = ("All inputs and all iterations, function by function, from the go/ssa form of /repo's current source; "
  "helpers without a contract are inlined. Trusts the verifier in /verif/tool, go/ssa, the SMT solvers and the "
  "models of the standard library listed in the evidence. ")
NOTE = {
 "C01": "Read/Write contracts against one layout function plus a round-trip lemma. Known finding: chunk stream ID 63 (its one-byte form is the marker of the long form, pinned by a test).",
 "C02": "Exact bytes for every header and exact decoding of every byte string.",
 "C03": "Write's postcondition is the whole wire form as a recursive function of the payload; one write call; termination.",
 "C04": "A lemma over the writer's and reader's contracts, by induction over the chunks of the message; chunk stream ID 63 is a known finding.",
 "C05": "A contract for each iteration of the reader's loop over the map of messages in progress, plus the accumulator's contract.",
 "C06": "Normalize's postcondition over the memory of previous headers.",
 "C07": "A contract for each iteration of the reader's loop.",
 "C08": "Every possible nil dereference, index, slice, conversion, division, send on closed channel and double close in the functions under contract is an obligation. The amf0 library and the AMF0 parsers that only hand bytes to it are outside.",
 "C09": "Success and remaining input are exact functions of the input bytes.",
 "C10": "Value contracts and frame conditions (nothing behind the slice is written).",
 "C11": "Map contracts for Stream.", "C12": "Contract for each event of the demultiplexer's loop.",
 "C13": "Contract for each started forwarder and each forwarded chunk.",
 "C14": "Lock obligations: guarded fields are only touched while their mutex is held, no re-acquisition, release on every path. Assumes the guard table in /verif/contracts.",
 "C15": "All decoding functions are verified against a reader that delivers its bytes in arbitrary pieces.",
 "H01": "Exact output and consumption.", "H02": "Success if and only if.", "H03": "Contract of the driver over the step interface.",
 "K01": "Codec contracts plus round-trip lemmas.", "K02": "Contract of Chunk.", "K03": "Contract of Parse.",
 "K04": "Contract for each event of the control stream's loop.",
 "G01": "The gates the package initialises are evaluated symbolically for every chunk.",
 "G02": "Contract for each event of the dispatch loop.",
 "D01": "Read/Write contracts.", "D02": "Bit fields for all 256 control bytes. Known finding: the sound size accessor, pinned by a test.",
 "N01": "Contract for each event of the three loops; the amf0 codec is trusted.",
 "S01": "Framing contracts; the amf0 encoder is trusted.", "V01": "Contracts of client and server; net is trusted.",
}
NA = {
 "L01": "Liveness under every schedule (a rendezvous completes eventually): contracts here are partial correctness per call and per loop iteration, and no ranking argument over two goroutines' progress is expressible in them.",
 "A01": "The AMF0 codec is the external module github.com/WatchBeam/amf0, whose source is not in this sandbox; there is no code to put under contract.",
}
claimed = []
for i in ids:
    if i in NA: continue
    if i in ("C08", "C14"):
        if os.path.exists(os.path.join(root, "gen", "claim_" + i)): claimed.append(i)
        continue
    if re.search(r"^\s*props\b.*\b%s\b" % i, specs, re.M) and not os.path.exists(os.path.join(root, "gen", "hold_" + i)):
        claimed.append(i)
m = {"version": 1, "setup_cmd": "bash setup.sh",
  "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": "contract-based deductive verification (symbolic execution over go/ssa, SMT)",
    "level": "proof", "level_note": COMMON + NOTE[i]} for i in claimed],
  "not_applicable": [{"property": i, "reason": NA.get(i, "contracts for this property are not finished yet; no check is claimed")} for i in ids if i not in claimed],
  "notes": "No hooks in /repo. Contracts live in /verif/contracts, the verifier in /verif/tool, the drivers that look for a failing input on the real code in /verif/replay."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print("claimed:", *claimed)
