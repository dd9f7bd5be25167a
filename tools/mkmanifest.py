#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "stateful property-based testing (rapid) of generated request histories against a reference model of the database"
STRUCTS = "property-based testing (rapid) of generated struct types (fresh source per seed) and values"
VIEWS = "stateful property-based testing (rapid) of generated struct requests over several types of the same attributes, against a reference model"
CHECKS = {
    "C01": MODEL + ", re-reading every held snapshot at the end",
    "C02": MODEL + ", with a differential twin that never sees the rejected requests",
    "C03": MODEL,
    "C04": MODEL + "; differential: every query shape against filtering all datums",
    "C05": MODEL + ", weighted to cardinality",
    "C06": MODEL + ", weighted to unique values",
    "C07": MODEL + ", weighted to temporary ids and identity values",
    "C08": MODEL + ", with broken references and values injected",
    "C09": MODEL + ", weighted to attribute declarations and their changes",
    "C10": MODEL + ", weighted to system entities and idents",
    "C11": MODEL + ", weighted to idents, resolving every ident after every request",
    "C12": MODEL + ", weighted to entity retractions",
    "C13": MODEL + ", round-tripping edge values of every type through every query shape",
    "C14": "stateful property-based testing (rapid) of index operation sequences over clone families against sets of datums",
    "C15": "property-based testing (rapid) of generated concurrent programs run under the race detector, their outcomes checked for linearizability against a reference model",
    "C16": STRUCTS + ": values round-trip",
    "C17": STRUCTS + " against a model of the schema their tags call for",
    "C18": VIEWS,
    "C19": VIEWS + ", reading every entity as every type",
    "C20": VIEWS + ", weighted to retractions",
    "C21": VIEWS + ", with unusable types, tags and values injected",
    "C22": "property-based testing (rapid) of generated object graphs written and read as struct types of every depth, compared up to identity (bisimulation) with a model",
    "C23": "stateful property-based testing (rapid): generated programs of partial, repeated, nested and interleaved passes over every kind of sequence, against the lists they must yield",
}
NOTE = ("Searches generated cases with shrinking; no exhaustiveness is claimed. Trusts the oracle in /verif/harness "
        "and that what the documentation leaves open may go either way (see DESIGN.md).")
extra = os.path.join(VERIF, "tools", "checks_extra.json")
if os.path.exists(extra):
    CHECKS.update(json.load(open(extra)))
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
doc = dict(version=1, setup_cmd="python3 check.py --warm", checks=[
    dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
         evidence_file="evidence/%s.json" % p, technique=CHECKS[p], level="exploration", level_note=NOTE)
    for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason="its check is being built") for p in props if p not in CHECKS])
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
