#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and what the harness has."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T = {
 "C01": "structured fuzzing (mutated well-formed encodings and raw bytes), panic/allocation oracle",
 "C02": "property-based testing: all roles on generated decodable PSBTs, panic oracle",
 "C03": "property-based testing: round trip over generated PSBTs",
 "C04": "property-based testing: differential against an independent reference decoder",
 "C05": "property-based testing: decode/encode compared as key-value pairs",
 "C06": "property-based testing: serde round trips in four formats, malformed input fuzzing",
 "C07": "property-based testing: combining compared with key-wise union, algebraic laws",
 "C08": "property-based testing: model of BIP-370's lock time rule",
 "C09": "model-based testing of role histories against an identity model",
 "C10": "model-based testing of construction histories",
 "C11": "property-based testing: signatures verified against independently computed messages",
 "C12": "model-based testing of signing histories",
 "C13": "property-based testing: model of key stores",
 "C14": "property-based testing with injected faults, consensus interpreter as oracle",
 "C15": "property-based testing: satisfiability model of generated policies",
 "C16": "property-based testing: model of extraction and fee rate limits",
 "C17": "property-based testing: exact sums in wider arithmetic",
 "C18": "property-based testing: tables of sighash types over blocks of numbers",
 "C19": "differential property-based testing against rust-bitcoin's decoder and encoder",
 "C20": "differential property-based testing against rust-bitcoin, key-wise union oracle",
 "C21": "property-based testing: signatures verified against independently computed messages, differential against rust-bitcoin",
 "C22": "differential property-based testing against rust-miniscript, consensus interpreter as oracle",
 "C23": "structured fuzzing across versions: both decoders on the same bytes",
 "C24": "property-based testing: model of BIP-174's signer checks",
 "C25": "metamorphic property-based testing: v2 and v0 pipelines on one transaction",
}
checks, na = [], []
have = set(os.path.basename(f)[:-3].upper() for f in os.listdir(root + "/harness/hsrc/props") if re.match(r"c\d\d\.rs", f))
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    src = open(root + "/harness/hsrc/props/%s.rs" % i.lower()).read()
    rule = re.search(r'rule: "((?:[^"\\]|\\.)*)"', src).group(1)
    assume = re.search(r"assumptions: &\[(.*?)\],\n", src, re.S).group(1)
    assume = re.findall(r'"((?:[^"\\]|\\.)*)"', assume)
    n = re.search(r"quick: ([\d_]+)", src).group(1).replace("_", ""), re.search(r"thorough: ([\d_]+)", src).group(1).replace("_", "")
    note = "No counterexample among %s (quick) or %s (thorough) generated cases: %s." % (n[0], n[1], rule)
    if assume:
        note += " Assumes or trusts: " + "; ".join(assume) + "."
    checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are one Rust program, /verif/harness, with a path dependency on /repo. VERIF_SEED selects the cases, VERIF_CASES overrides their number. No hooks in /repo are needed."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
