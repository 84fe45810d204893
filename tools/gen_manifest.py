#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SIM = "model-based property testing (proptest) under a deterministic scheduler with virtual time"
ORACLE = {
 "C01": SIM + "; oracle: the scripted content at the reader's position",
 "C02": SIM + "; oracle: reference resolution of seeks",
 "C03": SIM + "; oracle: every call returns, no deadlock, bounded steps",
 "C04": SIM + "; sources that fall silent; oracle: reference gate on delivered bytes",
 "C05": SIM + "; injected stalls, errors and reconnect faults; oracle: scripted content",
 "C06": SIM + "; injected storage, seek and finish faults; oracle: error reporting history",
 "C07": SIM + "; injected cancellation and drops; oracle: history of the finish hook and releases",
 "C08": SIM + "; oracle: order of events in the history",
 "C09": SIM + "; oracle: request log against the stored ranges",
 "C10": SIM + "; oracle: storage contents and request log at completion",
 "C11": "property testing (proptest) with injected panics and runtime shutdowns on real threads; oracle: every call returns an error, handles resolve, everything is released",
 "C12": SIM + "; oracle: progress reports against the writer's log",
 "C13": SIM + "; injected stalls; oracle: reference timing of reconnects",
 "C14": "stateful property testing (proptest) against a reference window model",
 "C15": SIM + "; oracle: window model and content",
 "C16": "differential stateful property testing (proptest) against the selected storage and a model",
 "C17": "stateful property testing (proptest) against a reference file model",
 "C18": "property testing (proptest) over generated server behaviours on a loopback server; oracle: the resource",
 "C19": "property testing (proptest) with a recording mock client; oracle: reference request model",
 "C20": "property testing (proptest) over generated process pipelines; oracle: expected output and process table",
 "C21": "property testing (proptest) against a reference router",
 "C22": "property testing (proptest) over generated access patterns on the memory service; oracle: the object",
 "C23": "property testing (proptest) with stand-in programs that report their arguments",
 "C24": "property testing (proptest) over fragmented readers; oracle: the reader's bytes",
 "C25": "property testing (proptest); injected initialisation faults; oracle: reference outcome",
}
BOUNDS = {
 "sim": "random search: contents mostly of up to a few hundred bytes and now and then of up to about 100 KB, histories of up to a few dozen operations, random schedules of reader, download task and extra actors; absence of violations is not established",
 "unit": "random search over operation sequences of limited length",
 "net": "random search with real threads; the interleaving of reader and download task is left to the runtime and the system",
 "os": "random search with real sockets or processes; timing inside the kernel is not controlled",
}
def kind(i):
    return "os" if i in ("C18","C20") else "unit" if i in ("C14","C16","C17","C21","C23") else "net" if i in ("C11","C18","C19","C20","C22","C24","C25") else "sim"
TODO = set(sys.argv[1:])
checks = [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
    technique=t, level="exploration", level_note=BOUNDS[kind(i)]) for i, t in ORACLE.items() if i not in TODO]
m = dict(version=1, setup_cmd="./check.sh --build", checks=checks,
    not_applicable=[dict(property=i, reason="check under construction") for i in sorted(TODO)])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
