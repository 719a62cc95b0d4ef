#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a rule file."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("effect analysis over resolved callees (MIR) + provenance of opened paths", "every external callee of the crate is classified by effect; the path handed to the only file opener is traced to its sources"),
 "C02": ("value-flow analysis on MIR: allow-list of exact decimal operations", "all values stored in quantities, amounts, costs, balances and report lines are computed symbolically as terms; only exact decimal operations may occur"),
 "C03": ("guarded value-flow on MIR: dominating commodity comparison at every sum", "every quantity addition/subtraction in the crate is checked for a dominating same-commodity condition"),
 "C04": ("value-flow / gated-SSA summary of xact::finalize with loop fold closed forms", "the closed form of the stored amount is compared with the specification in every case of (cost, amount) presence"),
 "C05": ("fold-completeness analysis on gated-SSA summaries; who-may-write lists", "closed forms of the balance functions and exactly-once linking of postings; crate-wide writer lists"),
 "C06": ("fold-completeness analysis of the report functions (gated-SSA summaries)", "closed forms of the report lines are compared with the specification"),
 "C07": ("order/nondeterminism taint analysis on MIR", "unordered iteration must be sorted before its order is observable; no clock, random, address or environment value reaches a result"),
 "C08": ("case-split value-flow of account lookup/creation; writer confinement", "lookup and creation are compared with the specification in every case of presence of name and first part; fields of accounts have confined writers"),
 "C09": ("case-split value-flow of the commodity pool; writer confinement", "lookup and creation are compared with the specification in every case; fields of commodities have confined writers"),
 "C10": ("ownership/storage analysis: pointee containers, removers, relinking", "storage types of all pointees, absence of removing or replacing calls, closed form of link renewal"),
 "C11": ("nullness dataflow at every raw dereference (path conditions from MIR)", "every unsafe dereference is enumerated and must be proven non-null under its path condition or by an established invariant"),
 "C12": ("typestate of the line buffer + dispatch-table extraction from MIR", "per first character of a line, the effects of the dispatcher are extracted and compared with the table; loop exits and finalisation are must-pass properties"),
 "C13": ("error-discipline dataflow: every failure value ends in panic or Err", "every call returning Result/Option of a fallible operation is enumerated; its failing case must end in a panic or a propagated error"),
 "C14": ("value-flow from header/note text to fields (string-slice terms)", "slices computed by the scanners are compared, as terms, with the specification"),
 "C15": ("value-flow from posting text to fields (string-slice terms)", "slices computed by the scanners and the fields stored by parse_post are compared, as terms, with the specification"),
 "C16": ("ranking/structural-recursion analysis of every loop and call-graph cycle", "every loop and every recursive cycle reachable from the API must have a recognised decreasing measure; divisions must be guarded"),
 "C17": ("value-flow of arguments to files, report and output", "closed forms of the argument loops and of the file reading fold"),
 "C18": ("value-flow into the price history", "closed forms of the recorded price (pair, date, rate) and the map update"),
 "C19": ("value-flow of the price lookup, loop fold closed form", "closed form of the rate and date along the path"),
 "C20": ("value-flow of each operator with sign domain", "closed form of every operator compared with the specification"),
 "C23": ("loop-carried state analysis of the reader (gated SSA) + global-state scan", "the loop over the directives, from every entry point, carries only the journal: no other loop-carried variable, initial journal state or whole-source value occurs in the conditions and effects of a pass; nothing is done to the journal before or after the loop; no static or thread-local variable is used"),
 "C25": ("guarded value-flow of the derived cost, decided over all small abstract transactions", "every store to a posting's cost in finalize is compared with the rule in every abstract transaction of two or three postings (commodity, cost and amount presence, zero totals): path condition and stored term are resolved in each"),
}
NA = {
 "C21": "whether a total is within display precision is a numeric condition on runtime sums that the code does not compute at all: finalize never rejects an unbalanced transaction (a missing feature, see DESIGN.md); there is no construct to analyse",
 "C22": "overflow depends on the magnitudes of runtime quantities; no sound static bound exists, inputs are unbounded decimals",
 "C24": "asymptotic running time is not bounded by any static argument in reach (cost of hash maps, allocation and decimal arithmetic)",
}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "analysis", "rules", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + T[p][0], "level": "other",
                       "level_note": "static analysis of the type-checked MIR of /repo's current tree, no execution and no solver; " + T[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 analysis/build.py", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
