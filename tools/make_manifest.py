#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
T = {
 "C01": ("deterministic simulation: seeded scheduler over every instruction of concurrent callers", "Seeded search over interleavings of real callers at bytecode granularity, judged against the same call alone in a fresh process. Trusts CPython's semantics between instructions (GIL) and the fresh-process oracle."),
 "C02": ("deterministic simulation: seeded histories of calls with virtual time, against a fresh-process reference", "Seeded search over call histories (hundreds of calls) with clock jumps and collections; every call compared with the same call as the first of a fresh process."),
 "C03": ("deterministic simulation: asynchronous exceptions injected at chosen instructions", "Seeded search over (call, instruction, exception) triples; later and concurrent calls judged against fresh-process outcomes. Exceptions are delivered at bytecode boundaries."),
 "C04": ("deterministic simulation: read faults injected at libc level on the language data", "Seeded search over read-fault sequences interleaved with calls, then fault-free operation."),
 "C05": ("deterministic simulation: persistent read faults on chosen languages", "Seeded search over sets of unreadable languages and call histories."),
 "C06": ("deterministic simulation: interpreter processes in seeded environments with virtual clock, randomness and locale", "Seeded search over environments; each call compared with the reference environment. One interpreter version, one operating system."),
 "C07": ("deterministic simulation: system-call faults and a full process-state snapshot around seeded calls", "Seeded search over applications' settings, write-side faults and aborts; every libc write, connection and spawn is logged, about 90 settings are compared."),
 "C08": ("deterministic simulation: long seeded histories with retention measured at checkpoints", "Seeded search over long call histories with faults; objects, memory and handles compared between checkpoints. The bound is a growth threshold per call."),
 "C09": ("deterministic simulation: nested calls injected at chosen instructions of a call", "Seeded search over (outer call, instruction, inner call, kind of interruption)."),
 "C10": ("deterministic simulation: forks injected while other threads stand at chosen instructions", "Seeded search over fork points of multi-threaded processes; child and parent calls judged against fresh-process outcomes."),
 "C11": ("deterministic simulation: disk faults and file replacement after warm-up", "Seeded search over installation changes and I/O faults after every function and language were used."),
 "C12": ("deterministic simulation: faults and interrupts at chosen points of the package import, then retry", "Seeded search over fault points of the import (libc operation or instruction), followed by retry and a battery of calls."),
 "G01": ("deterministic simulation: crash, power-loss and I/O-error injection at every file operation of the generator", "Seeded choice of fault points over all file operations of the run, with a model of unsynced data; every target compared with its old and new bytes. Completed renames are assumed durable."),
 "G02": ("deterministic simulation: sequences of crashed generator runs, then a completing one, against a crash-free reference", "Seeded search over sequences of up to three crashed or failed runs; whole-tree comparison."),
 "G03": ("deterministic simulation: generator in seeded environments with virtual clock, locale, listing order", "Seeded search over environments and previous outputs, byte comparison with a reference run; all repository inputs compared with the shipped vocabularies."),
 "G04": ("deterministic simulation: I/O-error injection at every file operation of the generator", "Seeded choice of fault points and damaged inputs; exit status 0 is compared with the bytes left."),
 "G05": ("deterministic simulation: every modifying file operation checked under crash and error injection", "Seeded search; operations checked as they are made and trees compared afterwards."),
 "G06": ("deterministic simulation: seeded language sets, orders and damaged inputs against single-language runs", "Seeded search over language sets, directory orders and damage."),
 "G07": ("deterministic simulation: simulated readers interleaved between the generator's file operations", "Seeded search; every target is read before every operation, plus readers that hold files open. Interleaving granularity is one libc file operation."),
 "G08": ("deterministic simulation: library processes with compiled files before, during and after crashed and completed generator runs", "Seeded search over histories of input edits, runs, faults and library processes; outcomes compared per language with a library that has the complete previous or new file and no compiled ones."),
}
NA = {
 "P01": "A pure function of the text: no schedule, time, I/O, fault or history can change it (C01-C12 check that they do not). Deciding it needs enumeration of phrases against a grammar, which is not simulation.",
 "P02": "A pure function of the text, with nothing nondeterministic to simulate; it is a metamorphic property of inputs alone.",
 "P03": "A pure function of the text applied twice; there is no schedule or fault in it to search over.",
 "P04": "Quantifies over texts only; there is no nondeterminism for a simulator to decide (and the tree breaks it: parse_number('\u00bd') raises ValueError, see DESIGN.md).",
 "P05": "Relates the values of two texts; nothing in it depends on scheduling, time, I/O or faults.",
 "P06": "Relates the values of two texts; nothing in it depends on scheduling, time, I/O or faults.",
 "P07": "Relates the values of three texts; nothing in it depends on scheduling, time, I/O or faults.",
 "P08": "Which language wins is a pure function of the text (that it does not vary between processes, histories or faults is C02, C04 and C06).",
 "P09": "Depends on the argument only; its history- and fault-dependent side is covered by C02, C04 and C05.",
 "P10": "A complexity bound over texts; virtual time cannot measure it and faults do not change it.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    c = importlib.import_module("vsim.checks." + i.lower()).CHECK
    checks.append({"property": i, "quick_cmd": "%s check.py %s" % (PY, i), "thorough_cmd": "%s check.py %s --thorough" % (PY, i), "evidence_file": "evidence/%s.json" % i,
                   "technique": T[i][0], "level": c.level, "level_note": T[i][1]})
m = {"version": 1, "setup_cmd": "%s tools/setup.py" % PY, "hooks": {"guard": "none", "enable": "No hooks were added to /repo: every seam is outside it (libc calls through LD_PRELOAD, instructions through a trace function). The checks run /repo's files as they are.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Replay a violation: %s check.py replay replays/FILE.json. VERIF_SEED selects the seeds; DESIGN.md describes the simulator." % PY}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
