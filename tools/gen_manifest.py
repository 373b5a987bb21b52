#!/usr/bin/env python3
"""Write MANIFEST.json: every property the harness has a check for is claimed."""
import json, subprocess, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
have = set(subprocess.run([root / "target/debug/harness", "list"], capture_output=True, text=True).stdout.split())
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]

TECHNIQUE = {
    "C01": "property-based round-trip testing over generated protocol documents",
    "C02": "property-based differential testing against an independent encoder/decoder of standard 1",
    "C03": "structured mutation fuzzing of every decoder",
    "C04": "property-based round-trip testing over payloads, keys and encodings",
    "C05": "property-based testing of generated alterations (metamorphic: fail or the signed bytes)",
    "C06": "property-based differential testing against independent ciphers and key derivation",
    "C07": "property-based round-trip and differential testing against independent codecs",
    "C08": "grammar-based generation of names and near misses against a table oracle",
    "C09": "property-based testing of generated keys against an independent implementation",
    "C10": "property-based testing of generated signatures and alterations",
    "C11": "metamorphic property-based testing of requests against an independent validator",
    "C12": "metamorphic property-based testing of certificates against an independent validator",
    "C13": "metamorphic property-based testing of responses against an independent validator",
    "C14": "property-based testing of generated histories of draws",
    "C15": "stateful model-based testing of the server's handlers with generated forgeries",
    "C16": "stateful model-based testing of the server's handlers with injected storage failures",
    "C17": "stateful model-based testing of the lookup handler",
    "C18": "stateful model-based testing over permuted arrival orders",
    "C19": "stateful model-based testing of the stored routing table",
    "C20": "generated histories with enumerated crash and fault points, and generated schedules",
    "C21": "stateful model-based testing of the stored inbox",
    "C22": "generated hostile channel names against a model, with directory snapshots",
    "C23": "generated interleavings of concurrent operations with an exactly-once oracle",
    "C24": "generated histories with enumerated crash and fault points",
    "C25": "generated server networks with faults against a reachability oracle",
    "C26": "generated server networks with faults against a reachability oracle",
    "C27": "generated genuine and forged replies against an independent acceptance oracle",
    "C28": "stateful model-based testing of real clients and servers over HTTP",
    "C29": "grammar-based generation of addresses against a reference parser and resolver",
    "C30": "stateful model-based testing against a simulated gateway with injected failures",
    "C31": "property-based serde round-trip and mutation testing",
    "C32": "generated histories with a search of everything sent and stored for secrets",
    "C33": "generated requests and replies through the real HTTP adaptors",
    "C34": "stateful model-based testing under a generated wall clock",
    "C35": "generated interleavings of concurrent requests with a serial-order oracle",
    "C36": "generated interleavings of concurrent client calls against each call's own expected answer",
    "C37": "generated constructor arguments against reference documents and signature checks of an independent implementation",
    "C39": "stateful generated histories with a search of all stored files for what should be gone",
    "C40": "generated request histories with cancellation at every suspension point against a model of the holdings",
    "C38": "generated pairs with single-part differences; equality and hashes against reference documents",
}
LEVEL = {"C20": "fault_enumeration", "C24": "fault_enumeration"}
NOTE = {
    "fault_enumeration": "For every generated history every file-system step is tried as a crash point and as a failing call. Assumes completed file calls persist in order.",
    "exploration": "Generated-input search against an explicit oracle, shrunk to a replayable case; no proof of absence. Trusts the harness's reference model.",
}

checks, missing = [], []

for p in props:
    i = p["id"]
    if i not in have:
        missing.append({"property": i, "reason": "Check not built yet."})
        continue
    level = LEVEL.get(i, "exploration")
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"./check.sh {i} --thorough",
        "technique": TECHNIQUE[i],
        "level": level,
        "level_note": NOTE[level],
    })

manifest = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo are needed. Replay a failure with: target/debug/harness replay <file>.",
}
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "claimed", len(missing), "not")
