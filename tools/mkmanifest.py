#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a dst/props module is claimed, the others are not applicable."""
import json
import os

V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
T = "deterministic simulation: seeded search over {what}; oracle: {oracle}"
C = {
    "C01": ("exploration", "hostile and fair random streams over generated templates and libraries", "reference language of the template",
            "Every sampled template/library/stream combination stayed inside the template's language, computed independently from the documentation. Bounded templates (depth 3, language up to a few thousand strings)."),
    "C02": ("exploration", "interleavings of live enumerations, abandonment and cache drops", "reference enumerator (explicit products and permutations)",
            "Exact sequence equality up to a horizon of 70 prompts per enumeration; trusts the reference enumerator."),
    "C03": ("exploration", "interleavings of random, cyclical and combinatorial enumerations sharing samplers and library", "closed-form index function of each cyclical part",
            "Step-by-step equality up to 90 prompts per enumeration."),
    "C04": ("exploration", "process perturbations (listing order, entropy, caches, global random state, other threads, hash seed) between identical seeded histories",
            "equality with the unperturbed history and with single-seed calls", "Compares complete outputs; directory order, entropy, schedule and hash seed are controlled by the simulator."),
    "C05": ("exploration", "seeded random streams", "exact outcome distribution, chi-square and zero-probability tests with false-alarm rate below 1e-12 per run",
            "Statistical: small weight errors (below a few percent) on one kind of template can escape."),
    "C06": ("exploration", "histories of file edits, settings changes, refreshes and lookups", "reference library computed from the disk contents",
            "Histories of up to 30 steps over small libraries."),
    "C07": ("fault_enumeration", "I/O faults at every file-system call of lookups, and recovery", "reference library with whole faulted files removed",
            "Faults are injected at the Python file API (open/read/scandir); one to three faults per run at enumerated call indices."),
    "C08": ("fault_enumeration", "write faults, process crashes and power losses at every file-system call of a save", "old-or-new contents, read-back agreement, retry",
            "Crash model: process death keeps completed calls; power loss keeps synced data and an ordered prefix of directory operations."),
    "C09": ("exploration", "library histories and hostile references with the file-system seam recording every path", "path containment of every access and value provenance",
            "Accesses are observed at Python's file API; symbolic links inside the roots are followed by design."),
    "C10": ("exploration", "thread schedules at line or bytecode granularity (random and priority-based) with I/O and lock switch points", "linearizability of lookups against refreshes and settings; equality with solo runs",
            "Threads run one at a time under the simulator's scheduler; races inside C code are out of reach."),
    "C11": ("fault_enumeration", "interruptions (KeyboardInterrupt, MemoryError, RecursionError) injected at any executed line, failing and abandoned calls", "equality with fresh objects",
            "Interruption points are line starts of the product's code."),
    "C12": ("exploration", "scripted model replies, block-list matches and model failures", "reference retry protocol", "The transformers library is a stub with the same interface."),
    "C13": ("fault_enumeration", "histories of constructions and switches with load failures at each stage", "reference model registry", "The transformers library is a stub with the same interface."),
    "C14": ("fault_enumeration", "simulated network replies, stalls, truncation and errors on a simulated clock", "query round trip, result provenance, bounded simulated time",
            "requests runs for real above a stub transport adapter."),
    "C15": ("exploration", "stub language models with faults, random streams and bounds", "de-emphasised text equality and weight bounds", "spaCy is a stub."),
    "C16": ("exploration", "interleaved and failing Jinja requests over one generator", "isolated fresh-generator renderings and template-independent expected values", "Jinja2 runs for real."),
    "C17": ("exploration", "templates with huge, cyclic, empty and self-referential structure under a deterministic step counter", "work bound as a function of template size and n; termination",
            "Step counts are calls, resumptions and jumps of the product's own code."),
}
NA = {
    "C18": "Parsing is a pure function of the template text: no schedule, clock, I/O, randomness or history for a simulator to control; the deciding step would be plain input generation.",
    "C19": "A pure relation between two template texts; nothing for a scheduler or fault injector to act on.",
    "C20": "The clean-up is a pure string function of one model reply; fault injection and schedules do not reach it.",
}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C and os.path.exists(os.path.join(V, "dst/props", i.lower() + ".py")):
        lvl, what, oracle, note = C[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": T.format(what=what, oracle=oracle), "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam used is an existing one (constructor arguments, Python's file, thread, lock, import and HTTP-adapter interfaces, sys.monitoring)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
