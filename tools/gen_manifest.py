#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties (run by hand)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exhaustive enumeration of refused memory requests on the real code under a fault-injecting allocator",
         "every operation x start state x failing request (single and persistent) within the bounds; assumes the global allocator is the only source of refusal"),
 "C02": ("exhaustive enumeration of operation x refused request / failing clone x follow-up operation against a sequence model",
         "all vector states and arguments within the bounds"),
 "C03": ("exhaustive enumeration of operation sequences in lockstep with a sequence model",
         "all programs of bounded depth over all small length/capacity states"),
 "C04": ("exhaustive enumeration of reserve/add histories with every memory request counted",
         "all small states and arguments; growth runs up to a bound"),
 "C05": ("exhaustive enumeration of histories and faults with an element registry and a block ledger",
         "all programs of bounded depth with every single refused request or failing clone"),
 "C15": ("exhaustive enumeration of reader scripts (short reads, interruptions, errors, end) x limits x buffers",
         "all scripts of bounded length; beyond the script the source delivers everything asked"),
 "C16": ("exhaustive enumeration of formatting pieces x capacities x refused requests against format!",
         "all piece sequences of bounded length through a fixed set of format strings"),
 "C17": ("exhaustive enumeration of ownership histories x refused requests over a grid of types",
         "all disposal ways and sharing sequences of bounded depth"),
 "C18": ("exhaustive enumeration of panic points (and comparison answers) of caller code",
         "every callback invocation as the panic point for every operation and small state; detection relies on the element registry, quarantined memory and canaries"),
 "C20": ("exhaustive enumeration of iterator lengths x size hints x refused requests",
         "all lengths up to the bound"),
 "C06": ("explicit-state breadth-first search over reachable node arrangements of the real tree, every operation at every rank checked against a sorted-map model",
         "complete for trees up to the bounded size; three-level trees by seeds covering inner-node fills"),
 "C07": ("breadth-first search over node arrangements x insertion position x every refused request",
         "complete for trees up to the bounded size plus full-path seeds"),
 "C08": ("breadth-first search over node arrangements x every split position; all interleavings for append; follow-up operations",
         "complete within the size bounds"),
 "C09": ("enumeration of node arrangements x bounds x front/back step counts",
         "complete within the size bounds"),
 "C10": ("breadth-first search over node arrangements with comparisons, requests and held blocks counted",
         "bounds are generous constants times the logarithm / element count"),
 "C11": ("enumeration of all pairs of subsets and size ratios around the strategy switch, every iterator step",
         "complete for the small universe; large sets by size sweep"),
 "C12": ("breadth-first search over node arrangements x ways of disposing, with registry and block ledger",
         "complete within the size bounds"),
 "C13": ("enumeration of values of every supported shape x refused request / failing clone",
         "all small values; 8- and 16-bit integers exhaustively"),
 "C14": ("exhaustive enumeration of operation sequences x hash behaviours x refused requests against a map model",
         "all programs of bounded depth over prefilled states crossing growth thresholds"),
 "C19": ("enumeration of pairs of histories and contents compared through Eq, Ord, Hash and Debug",
         "complete within the size bounds"),
 "C21": ("the bounded history sets repeated over a grid of element sizes and alignments",
         "a grid of types, not all types"),
}
claimed = sys.argv[1:] or list(T)
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [
  {"property": "C22", "reason": "which traits a type implements is decided by the type checker, not by any execution: there is no behaviour, state or schedule to enumerate, so model checking has nothing to explore"}],
  "notes": "No hooks in /repo: every check drives the public API. known_findings.txt lists the defects recorded or fixed."}
for p in sorted(T):
    if p in claimed:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py run {p} quick",
          "thorough_cmd": f"python3 check.py run {p} thorough", "technique": T[p][0], "level": "model_checking",
          "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
