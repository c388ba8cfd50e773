#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": "property-based testing (rapid): generated inputs against a reference oracle",
 "C01": "property-based testing (rapid): generated values, key sets and decryption histories in fresh processes, round-trip oracle",
 "C02": "property-based testing (rapid): generated ciphertext operations against plaintext arithmetic, with argument snapshots",
 "C03": "property-based testing (rapid): serialisation round trips over generated values of every exchanged type",
 "C04": "structured mutation fuzzing of all decoders and of uploads to running surveys (rapid); oracle: no panic, truncation refused, survey answer unharmed",
 "C05": "property-based testing (rapid) of protocol runs over generated rosters, trees and data, plaintext oracle",
 "C06": "property-based testing (rapid) of shuffles and shuffle chains, multiset oracle on independent decryption",
 "C07": "property-based testing (rapid) of tagging runs, equality-relation and cross-run metamorphic oracles",
 "C08": "property-based testing (rapid) of aggregation runs with generated data and message arrival orders, sum oracle",
 "C09": "stateful model-based testing (rapid) of the store against an exactly-once model",
 "C10": "end-to-end property-based testing (rapid) of generated surveys against a clear-text reference",
 "C11": "generated concurrent schedules of surveys, uploads and protocol instances; differential against running alone",
 "C12": "property-based testing (rapid) with systematic component tampering; oracle: honest accepted, tampered refused",
 "C13": "property-based testing (rapid) with systematic component tampering; oracle: honest accepted, tampered refused",
 "C14": "property-based testing (rapid) with systematic component tampering; oracle: honest accepted, tampered refused",
 "C15": "property-based testing (rapid) with systematic component tampering; oracle: honest accepted, tampered refused",
 "C16": "property-based testing (rapid) with systematic component tampering; oracle: honest accepted, tampered refused",
 "C17": "stateful property-based testing (rapid): generated join/leave sequences, plaintext and inverse oracles",
 "C18": "property-based testing (rapid): generated predicates and records against a reference evaluator",
 "C19": "property-based testing (rapid): file round trip and differential against a reference aggregation",
 "C20": "property-based testing (rapid): generated parameters against structural and density oracles",
 "C21": "grammar-based generation of command lines against a recording server; reference parser oracle",
 "C22": "property-based testing (rapid): generated proof lists with planted invalid proofs and fractions, ceil(p*n) oracle",
 "C23": "property-based testing (rapid): pairwise-distinctness invariants over generated repeated operations",
 "C24": "property-based testing (rapid): per-tag sum oracle and conversion round trips",
 "C26": "fault injection into protocol runs and surveys (rapid): generated faults at a generated server; oracle: no result but the correct one, no crash",
 "C25": "property-based testing (rapid): generated tables against a reference parser",
}
NOTE = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isdir(V + "/harness/" + i.lower()):
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, TECH["default"]), "level": "exploration",
                       "level_note": NOTE.get(i, "random generated-input search against an explicit oracle; no exhaustiveness is claimed")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every check drives exported interfaces. Genuine defects found are repaired by fix: commits or listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
