#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
pbt = "property-based testing (rapid): "
guided = "property-based testing (rapid), then coverage-guided search over the choices of the generators: "
T = {
 "C01": ("generated rule trees rendered as text with random layout; oracle: the tree itself", "exploration"),
 "C02": ("generated token sequences in pairs of random layouts; metamorphic oracle (equal trees, no positions) and the tree itself", "exploration"),
 "C03": ("random bytes, token soup, skeletons and mutated rules; differential oracle: own reference parser; deep and long texts in processes of their own", "exploration"),
 "C04": ("generated and mutated rules; round-trip oracle print/parse, also after expansion", "exploration"),
 "C05": ("generated Go expression trees in all positions; oracle: the tree, go/parser on the printed text, rejection of injected unsupported constructs", "exploration"),
 "C06": ("pairs of layouts, skeletons and mutants; metamorphic oracle: same print, idempotence, composition of the prints of the parts", "exploration"),
 "C07": ("write faults injected at generated offsets and calls, unsupported nodes planted at generated places; oracle: error carried, output a prefix", "fault_enumeration"),
 "C08": ("generated rules with consistent groups; oracle: model of expansion and parsing of the alternatives written out", "exploration"),
 "C09": ("generated files with conflicting groups and repeated expansion; oracle: model, deep snapshots of file and rules", "exploration"),
 "C10": ("generated trees, start nodes and pruning decisions; oracle: own enumeration of the nodes in printed order", "exploration"),
 "C11": ("generated rules with each feature planted or absent; oracle: model", "exploration"),
 "C12": ("generated rules of the fragment; oracle: own interpreter of the opcodes against the formula read by an own SMT-LIB evaluator, exhaustive for small widths, z3 against an independent encoding", "exploration"),
 "C13": ("generated rules with hostile names; oracle: own strict SMT-LIB reader and sort checker, cvc5 --strict-parsing, z3", "exploration"),
 "C14": ("generated rules with injected defects; oracle: own checker of the supported fragment", "exploration"),
 "C15": ("generated sets of rule files given to the built command; oracle: model of load, filter, expansion and numbering, snapshots of the directory tree", "exploration"),
 "C16": ("bad inputs and write faults injected into generated runs of the built command; oracle: exit status, message, unchanged directory tree", "fault_enumeration"),
 "C17": ("generated concatenations, reader chunkings, read faults and files; metamorphic and differential oracle", "fault_enumeration"),
 "C18": ("generated operation histories and concurrent schedules under the race detector; oracle: results alone and in a new process, deep snapshots", "exploration"),
 "C19": ("generated files through every order of the stages; metamorphic oracle: the orders agree", "exploration"),
 "C20": ("generated pairs of trees, equal or different in one place; oracle: dumps equal exactly if the trees are", "exploration"),
}
notes = {
 "C03": "Assurance: random search; for every generated text acceptance and result equal those of an independent recursive-descent parser and Go expression reader written from the published grammar. Trusts that reader and go/scanner. Texts nested a million deep are a known finding.",
 "C12": "Assurance: random search over rules, exhaustive over values for up to 16 bits of input, sampled otherwise, with z3 deciding small rules. Trusts the own interpreter of the opcodes and the own evaluator of SMT-LIB, cross-checked by z3.",
 "C16": "Assurance: random search over kinds and places of faults. Files that cannot be read for lack of permission need a run as another user and are left out where that is not possible.",
 "C18": "Assurance: random histories; schedules are those the Go scheduler happens to choose, with the race detector reporting unsynchronised accesses whatever the order.",
}
checks = []
for id, (t, level) in T.items():
    checks.append({
        "property": id, "quick_cmd": f"./check {id}", "thorough_cmd": f"env VERIF_TIER=thorough ./check {id}",
        "technique": (pbt if id in ("C15", "C16", "C18") else guided) + t, "level": level,
        "level_note": notes.get(id, "Assurance: random search with shrinking, tens of thousands (quick) to millions (thorough) of generated cases; no counterexample found. Trusts the generators and the oracle named under technique."),
    })
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public packages and the built command only. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
