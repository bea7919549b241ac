#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property whose check exists (harness/src/bin/cNN.rs)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
GR = "grammars are enumerated exhaustively up to the stated sizes, scripts up to the stated length over the stated alphabet; the oracle is an independent reference (CFG semantics, least fixed points) in the harness. "
NOTES = {
 "C01": GR + "Says nothing about larger grammars or scripts beyond them; nesting deeper than the thread's stack is out of scope.",
 "C02": GR + "Trees are read back through the public tree interface.",
 "C03": GR + "Grammars with rules that derive no text are left out, as the property says.",
 "C04": GR + "Left recursion and LL(1) conflicts decided by the reference.",
 "C05": GR + "First sets of element sequences are read through the public functions.",
 "C06": GR,
 "C07": GR + "Tables and steuer sets are read through the public functions.",
 "C08": GR + "Observed with a VM of the harness that logs every execution and the subtree it was given.",
 "C09": "every layout of the enumerated rule files within the stated bounds is read by the real reader and compared with the grammar it spells.",
 "C10": "all texts of tokens and all single edits of seed texts within the stated bounds, judged by an independent reader of the notation.",
 "C11": "all sections up to the stated length, read by recording VMs with every reading habit enumerated.",
 "C12": "all placements of the directives in the enumerated rule files; oracle: the same rules with the references written out.",
 "C13": "all histories of scripts up to the stated length on one parser, compared with fresh parsers.",
 "C14": "all executions with at most the stated number of non-default iteration orders of the hash containers (which the check owns: the sources are compiled against order-controlled containers), plus all rule orders and renamings of the enumerated grammars.",
 "C15": "all operation histories up to the stated depth on the real tree against a reference model, every handle ever issued queried after each.",
 "C16": "all operation histories up to the stated depth on the real graphs against a reference model.",
 "C17": "all reader programs up to the stated length over all small sources on the real reader against a reference model.",
 "C18": "all texts up to the stated length over the stated alphabet, boundary numbers, against an independent reference.",
 "C19": "one step of every instruction from every state of a boundary-value set, all short programs from the initial state, against wide-integer semantics.",
 "C20": "all token scripts up to the stated length for both bundled grammars against big-integer postfix evaluation, printed text included.",
 "C21": "all token texts up to the stated length read by the real assembler and executed, against an independent assembler.",
 "C22": "the real program run as a process on every pair of the enumerated rule and script files and every argument shape.",
 "C23": "all operation histories up to the stated depth on the real structure against a reference model.",
 "C25": GR + "Every grammar of the C04 families that is not LL(1), read from text and built by program.",
 "C26": "all malformed texts among all token strings, continuations, edits, long beginnings and stack-machine sections within the stated bounds.",
 "C27": GR + "Every assignment of edits to the rules of four grammars; edits varying with the grammar elsewhere.",
 "C28": "every step on all token and character texts up to the stated length and on edits of rule files, bounded and unbounded; every number of rules read by hand before the rest.",
 "C29": GR + "All Unicode characters through every conversion and message; wording is not constrained.",
 "C24": GR + "Every rule of every grammar as the start rule, with every naming.",
}
TECH = {}
for p in props:
    f = f"{V}/harness/src/bin/{p['id'].lower()}.rs"
    if os.path.exists(f):
        m = re.search(r'technique:\s*"([^"]+)"', open(f).read())
        TECH[p['id']] = m.group(1)
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: everything the checks need is public. known_findings.txt lists repaired defects; replays/ receives counterexamples.",
}
for p in props:
    i = p['id']
    if i in TECH:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": TECH[i], "level": "model_checking", "level_note": ("Exhaustive within bounds, on the real code: " + NOTES[i]).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
