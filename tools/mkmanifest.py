#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
ENUM = "bounded exhaustive enumeration of inputs against a reference model"
HIST = "explicit-state model checking: every operation history and reachable model state replayed on the real code"
SCHED = "preemption-bounded exhaustive exploration of thread schedules of the real code under a controlled scheduler"
PROG = "bounded exhaustive enumeration of programs, each compiled by the real compiler and run, against a reference model"
EX, MC = "exploration", "model_checking"
CHECKS = {
    "C01": (ENUM, EX, "every token sequence up to the bound, decided by an independent reference parser; texts outside the reference grammar but accepted are only checked for totality"),
    "C02": (ENUM, EX, "every derivation of the grammar and layout up to the bound and every atom pair, compared with the model's meaning"),
    "C03": (ENUM, EX, "every selector up to the token bound at every position; trusts the reference rewriting rules"),
    "C04": (ENUM, EX, "every sheet tree up to the node bound; trusts the independent CSS reader"),
    "C05": (ENUM, EX, "every sheet and selector up to the bound at the three places global CSS is produced"),
    "C06": (ENUM, EX, "every accepted source of the spaces re-parsed and re-rendered"),
    "C07": (SCHED, MC, "all schedules of 2 and 3 parsing threads up to the preemption bound, plus every sequence of parses; sequentially consistent memory"),
    "C08": (ENUM, EX, "every pair of sheets up to the bound, borrowed and owned, compared by equality, hash, serialization"),
    "C09": (HIST, MC, "all histories up to the bound and all model states to the stated depth; identifiers are random draws that are assumed not to collide by chance"),
    "C10": (HIST, MC, "all creation histories in both entropy modes; generator output enumerated by seed; all schedules of 2 and 3 creating threads up to the preemption bound; all creation histories of two wasm applications on one page"),
    "C11": (HIST, MC, "all histories over 13 page set-ups on the real wasm32 build; the DOM is a model of the parts of the standard that stylist uses"),
    "C12": ("explicit-state model checking with fault injection: every browser call of every operation of every reachable model state failing, on the real code", MC, "single failures and failures of everything from one call on; the DOM is a model; creation of the thread's default manager without a document head is outside (it panics by design)"),
    "C13": (HIST, MC, "all histories over two managers and the default one; heap balance of every history"),
    "C14": (HIST, MC, "all histories over managers with and without a writer, compared with the model after each step; all schedules of a rendering and reading threads up to the preemption bound"),
    "C15": (ENUM, EX, "every fragment sequence up to the bound at every place, read back by an HTML raw-text reader"),
    "C16": (HIST, MC, "all server, load and client histories up to the bound, through three formats; the same across two processes with counter names; provider hydration in a document"),
    "C17": (PROG, EX, "every macro call of the spaces compiled and run; the meaning of text is the runtime parser's, checked by C01 and C02; values are complete components of their place"),
    "C18": (PROG, EX, "every inline macro call of the spaces compiled and run; documented limitations of inline syntax are outside the spaces"),
    "C19": (PROG, EX, "every misuse of the listed kinds at every place of the contexts, and the corrected program; every sequence of up to 3 of 28 pieces of inline CSS against the reference parser; which texts are CSS is the runtime parser's decision, checked by C01"),
    "C21": ("bounded exhaustive enumeration of component trees and of pairs of trees, rendered by the real server renderer and the real wasm32 build, against a reference model", MC, "all forests up to the node bound, on server, client, and hydrated; the DOM is a model"),
    "C22": (HIST, MC, "all histories and task interleavings up to the bound on the real wasm32 build; the DOM and its media queries are a model"),
    "C23": (HIST, MC, "all histories up to the bound on the real wasm32 build, rendered or hydrated; the DOM is a model"),
    "C20": (PROG, EX, "every sequence of three value assignments, panics of each expression, re-entrant evaluation and two threads for every program of the spaces"),
    "C24": (HIST, MC, "every sequence of builder calls up to the bound, natively and on the real wasm32 build; the DOM is a model"),
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
                    evidence_file=f"evidence/{p}.json", technique=t, level=l, level_note=n) for p, (t, l, n) in CHECKS.items()],
    "not_applicable": [dict(property=p, reason=r) for p, r in NA.items() if p not in CHECKS],
    "notes": "No hooks in /repo; see DESIGN.md.",
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
