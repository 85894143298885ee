#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT = {"C01", "C02", "C07", "C08", "C10", "C17", "C19", "C23"}
TYPESCRIPT = {"C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36"}
QUOTER = {"C21", "C22"}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i == "C23":
        how = "generated governance messages and executions against a reference model, and a codec round-trip against the documented bytes"
    elif i in QUOTER:
        how = "generated call histories of the quoter against a reference model"
    elif i == "C28":
        how = "generated messages through the TypeScript definitions (run by node) against a reference encoder"
    elif i == "C29":
        how = "generated histories whose transactions are built by the TypeScript client (run by node) and executed by the real programs, against a reference model of the protocol"
    elif i == "C30":
        how = "generated histories of the real programs, the state as reported by the TypeScript client (run by node) against a reference model of the protocol"
    elif i == "C31":
        how = "generated quoter histories and automatic transfers whose transactions and quotes come from the TypeScript client (run by node), executed by the real programs, against exact fee arithmetic"
    elif i == "C32":
        how = "generated amounts, versions and configurations through the TypeScript helpers (run by node) against exact arithmetic and direct lookup"
    elif i == "C33":
        how = "generated transfers through the TypeScript routes (run by node) over recorded protocols, against exact arithmetic and a model of the transfer's states"
    elif i == "C34":
        how = "generated contract states and operations through the TypeScript client for EVM chains (run by node), against the contracts' call encoding and the generated state"
    elif i == "C35":
        how = "generated deployments, files and sequences of commands of the command line tool (run by node) with declined questions and failing reads and transactions, against a model of deployment, file and settings"
    elif i == "C36":
        how = "generated deployment and upgrade requests to the command line tool (run by node) over recorded programs with generated outcomes, against a model of what must be run and recorded"
    elif i == "C18":
        how = "generated account substitutions and dropped signatures in otherwise valid calls of all four programs, all must be rejected"
    else:
        how = "generated call histories of the real programs against a reference model of the protocol"
        if i in DIRECT:
            how += ", and generated values against exact arithmetic or documented bytes"
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh check {i}",
        "technique": "stateful property-based testing: " + how + "; failures shrunk to a replay file",
        "level": "exploration",
        "level_note": "Holds on every generated case (counts and samples in the evidence file). Trusts the reference model and byte layouts in harness/, and the native execution of the programs under the real Solana runtime crates in place of BPF."
        + (" The TypeScript packages it imports are not installed: small stand-ins in ts/standins take their place and are trusted." if i in TYPESCRIPT else ""),
    })
m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Known findings and repairs: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
