#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run: python3 tools/gen_manifest.py"""
import json, os
T = {
"C01": "reference-model monitor: every observed bitvector operation, parse, print and sample compared with big-integer arithmetic, all widths",
"C02": "runtime verdict monitor: each Valid/Invalid verdict re-decided by exhaustive or sampled evaluation; Unknown provoked and followed",
"C03": "invariant monitor over materialised e-graphs: vectors re-evaluated sample by sample by a reference evaluator",
"C04": "invariant monitor walking every class of e-graphs the real code returns (evaluation homogeneity, intervals, smallest term)",
"C05": "reference-model monitor: merges of the real scheduler compared with a naive e-graph; semantic homogeneity walk",
"C06": "before/after state monitor of scheduler runs, compared with a reference e-graph",
"C07": "reference-model monitor with limits as the injected fault: rounds, match and node limits compared with a naive e-graph",
"C08": "runtime monitor: class counts around every application of rules classified as saturating",
"C09": "reference-model monitor of derivability verdicts against naive saturation and derivation chains",
"C10": "oracle over produced candidate sets: all compatible class pairs recomputed by brute force",
"C11": "oracle over produced candidate sets: all equal-vector class pairs recomputed by brute force",
"C12": "oracle over produced candidate sets: merged pairs and smallest allowed terms recomputed by brute force",
"C13": "trace monitor: recorded validator calls and results of minimisation checked against a trace specification",
"C14": "trace monitor on the recorded order of validator calls, plus a reference score",
"C15": "end-to-end monitor: returned rules re-decided by exact evaluation, workload pairs of equal function looked up after saturation",
"C16": "end-to-end monitor: returned rules replayed in a reference e-graph, related allowed pairs looked up after saturation",
"C17": "reference-model monitor: forced workloads compared with a direct denotation, as multisets",
"C18": "reference-model monitor: filtered workloads forced after arbitrary nesting of filters, plugs and appends, compared as multisets with filtering the model denotation",
"C19": "reference-model monitor: an independent matcher judges every term kept or dropped by contains and excludes filters",
"C20": "reference-model monitor: canonical-form filters against brute-force renamings, alone and inside filter chains",
"C21": "reference-model monitor of iterated workloads against brute-force enumeration of the grammar",
"C22": "round-trip monitor through text, files and a recorded subprocess listing; parsed rules are executed",
"C23": "round-trip monitor through text and files with faults in spacing and stale contents",
"C24": "history monitor: operation sequences on rulesets checked against a set model after every step",
"C25": "schedule-stress monitor: pools of 1..8 threads with injected delays, exactly-once accounting, compared with one-by-one evaluation",
"C26": "log monitor: the JSON log re-read after every call and after concurrent writers, compared with an append-only model",
"C27": "reference-model monitor: generalised pairs and instantiated patterns walked against the original terms",
"C28": "history comparison monitor: the same inference in one process, in fresh processes and with different thread counts",
}
NOTE = ("Exploration: holds on the executions observed (counts in the evidence file); inputs are generated "
        "from VERIF_SEED, the thorough tier runs an order of magnitude more of them.")
NOT_YET = {}
checks = [dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
    technique=t, level="exploration", level_note=NOTE) for i, t in T.items() if i not in NOT_YET]
m = dict(version=1, setup_cmd="bash build.sh", checks=checks,
    not_applicable=[dict(property=i, reason=r) for i, r in NOT_YET.items()])
p = os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1); open(p, "a").write("\n")
