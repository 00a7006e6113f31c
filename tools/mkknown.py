#!/usr/bin/env python3
"""Rewrites known_findings.json from the list below (commit hashes looked up by subject)."""
import json
import os
import subprocess

V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
FIXED = [
    ("C02", "a missing wildcard is one combination, not endlessly many", "combinatorial generation of a template with a missing wildcard repeated forever instead of yielding its literal text once (also C17)"),
    ("C01", "a missing wildcard inside a variant falls back to its literal text", "{2$$__nosuch__} raised or produced nothing instead of the literal text (also C17)"),
    ("C01", "keep a wildcard's parameters when it is a variant's only option", "{__w(p=x)__} lost the parameter p"),
    ("C05", "keep weights aligned with the remaining values when choosing several", "after the first pick of a multi-choice the weights belonged to the wrong options"),
    ("C01", "honour a zero bound of a variant with a single option", "{0$$a} produced a instead of nothing"),
    ("C05", "use weights, not repetition, for a wildcard inside a random variant", "values drawn through {__w__} ignored weights below one and repeated heavier values in one pick (also C01)"),
    ("C01", "let variable assignments see the assignments before them", "${a=x}${b=!${a}} raised although a was assigned"),
    ("C01", "name the wildcard that was missing when its path is random", "__{a|b}__ reported another path than the one that was looked up and missing"),
    ("C02", "let a variant combine two equal wildcards", "{2$$__w__|__w__} produced nothing"),
    ("C17", "end instead of looping forever when a cyclical variant has no combinations", "{@2$$...} with nothing to choose looped forever"),
    ("C02", "an empty part of a combinatorial sequence means no prompts, not an error", "a combinatorial sequence with an exhausted part raised RuntimeError (also C17)"),
    ("C03", "advance equal cyclical parts of a combinatorial prompt separately", "two equal {@a|b} parts of one combinatorial template advanced the same position twice"),
    ("C04", "build the wildcard tree in a fixed order, whatever order the OS lists files in", "seeded prompts and same-name precedence depended on the directory listing order"),
    ("C04", "draw weighted wildcard values one by one, so per-prompt seeds determine them", "prompt i of a weighted wildcard did not depend on seed i (values were drawn in batches of ten)"),
    ("C04", "honour seeds=0", "generate(..., seeds=0) was not seeded"),
    ("C04", "return no prompts for an empty template, also when seeds are given", "generate('', n, seeds=...) leaked StopIteration"),
    ("C05", "read the weight of a structured wildcard value that itself contains '::'", "'4::{a|3::b}' in a structured file lost its weight and kept the prefix as text"),
]
try:
    from more_fixed import FIXED2
    FIXED += FIXED2
except ImportError:
    pass
KNOWN = []
log = {}
for ln in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, _, subj = ln.partition(" ")
    log[subj] = h
out = {"known": KNOWN, "fixed": []}
for pid, subj, what in FIXED:
    out["fixed"].append(f"fixed: property={pid} {log['fix: ' + subj]} {what}")
left = [s for s in log if s.startswith("fix:") and s[5:] not in [f[1] for f in FIXED]]
assert not left, left
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out["fixed"]), "fixed,", len(KNOWN), "known")
