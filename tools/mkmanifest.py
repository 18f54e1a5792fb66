#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.json and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: online assertions against big-integer arithmetic on boundary-directed operands",
 "C02": "runtime monitor: online assertions against 320-bit floating point",
 "C03": "runtime monitor: payouts observed against a 320-bit model of the account's history",
 "C04": "runtime monitor: checker of the tiling of each observed slice",
 "C05": "runtime monitor: observed rates against a model of age and lock",
 "C06": "runtime monitor: the whole curve observed, block by block, against the 320-bit formula and its neighbours",
 "C07": "runtime monitor: inverse and additivity checkers over observed prices, totals and lookups; watchdog",
 "C08": "runtime monitor: online assertions against independent grammars and formatters",
 "C09": "runtime monitor: online assertions against big-integer and civil-calendar models; histories of transfers",
 "C10": "runtime monitor: generated addresses against an independent generator; histories with shared buffers",
 "C11": "runtime monitor: verdicts on corrupted addresses against an independent validator",
 "C12": "runtime monitor: online assertions against independent codec and checksums",
 "C20": "runtime monitor: derived keys against an independent BIP32 on big integers, with a corpus of rare keys",
 "C21": "runtime monitor: commutation checker over observed derivation chains",
 "C22": "runtime monitor: information-flow scan of all that public keys give, and refusal checker",
 "C23": "runtime monitor: path composition checker over observed derivations",
 "C24": "runtime monitor: online checker of histories of key operations against a model of independent values",
 "C25": "runtime monitor: imports against an independent reader of the old format",
 "C26": "runtime monitor with fault injection into sources of randomness",
 "C30": "runtime monitor: round-trip checker over all codecs and receiver states",
 "C31": "runtime monitor: differential observation against an independent reader and writer of the format",
 "C32": "runtime monitor: panics, stale state and allocation observed under hostile encodings",
 "C33": "runtime monitor with fault injection into streams and sinks: codec agreement checker",
 "C40": "runtime monitor: verdicts observed against independent ECDSA and Ed25519",
 "C41": "runtime monitor: verdicts and panics observed over all pairs of missing and real values",
 "C42": "runtime monitor: online checker of registration histories, each in its own process",
 "C50": "runtime monitor: phrases observed against an independent encoder",
 "C51": "runtime monitor: decoded phrases observed against an independent decoder",
 "C52": "runtime monitor: lookups observed against a scan of the list",
 "C60": "runtime monitor: online checker of operation sequences against mathematical sets",
 "C61": "runtime monitor: round-trip checker against the fixed layout",
 "C70": "runtime monitor: histories of string keys against a composed reference",
 "C71": "runtime monitor: callbacks of the WebAssembly module observed in node against the string API",
 "C80": "race detector, with comparison of concurrent and sequential results over many processes",
}
checks = []
conf = json.load(open(os.path.join(V, "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert sorted(ids) == sorted(T) == sorted(conf), set(ids) ^ set(T) ^ set(conf)
for i in ids:
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": T[i],
        "level": "exploration",
        "level_note": conf[i].get("note", "Executions of the real code on generated inputs, judged by an oracle which does not share code with it; see evidence/%s.json for what was observed and DESIGN.md for what was not." % i),
    })
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
