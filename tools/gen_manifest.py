#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (properties without a row are listed as not claimed)."""
import json, os
SCHED = "stateless model checking of the real server code: every schedule, environment answer and fault up to a deviation bound under a controlled scheduler"
ENUM = "bounded exhaustive exploration: every input of a finite domain run through the real code against an independent reference model"
FAULT = "bounded exhaustive exploration of inputs and injected faults on the real code against an independent reference model"
F = "Exhaustive within the stated bounds only. Trusts the façade that replaces std sockets, threads, locks, clocks and the poller (sequential consistency; checked against the real ones by the conformance traces of every model checking run) and the reference model in the harness."
G = "Exhaustive over the generated domain only; says nothing about inputs outside it. Trusts the reference model in the harness"
C = {
 "C01": ("model_checking", SCHED, F), "C02": ("model_checking", SCHED, F), "C03": ("model_checking", SCHED, F),
 "C04": ("exploration", ENUM, G + " and the façade network."),
 "C05": ("exploration", ENUM, G + "."), "C06": ("exploration", ENUM, G + "."),
 "C07": ("fault_enumeration", FAULT, G + " and the façade network."),
 "C08": ("fault_enumeration", FAULT, G + "."), "C09": ("exploration", ENUM, G + "."),
 "C10": ("exploration", ENUM, G + " and the façade network."), "C11": ("exploration", ENUM, G + " and the façade network."),
 "C13": ("model_checking", SCHED, F), "C14": ("model_checking", SCHED, F), "C15": ("model_checking", SCHED, F), "C16": ("model_checking", SCHED, F),
 "C17": ("model_checking", SCHED, F), "C18": ("model_checking", SCHED, F), "C19": ("model_checking", SCHED, F), "C20": ("model_checking", SCHED, F),
 "C21": ("exploration", ENUM, G + " and the façade network and clock."), "C22": ("exploration", ENUM, G + " and the façade network and clock."),
 "C23": ("model_checking", SCHED, F), "C27": ("exploration", ENUM, G + " and the façade clock."), "C28": ("model_checking", SCHED, F),
 "C33": ("model_checking", SCHED, F), "C34": ("model_checking", SCHED, F), "C35": ("model_checking", SCHED, F),
 "C24": ("model_checking", SCHED, F), "C25": ("exploration", ENUM, G + "."),
 "C12": ("exploration", ENUM, G + ", the scratch tree and the façade network."), "C26": ("model_checking", SCHED, F),
 "C30": ("exploration", ENUM, G + " and the façade network."), "C31": ("model_checking", SCHED, F), "C32": ("model_checking", SCHED, F),
 "C36": ("exploration", ENUM, G + "."), "C37": ("exploration", ENUM, G + " and the façade network."),
 "C29": ("fault_enumeration", FAULT, G + "."),
}
NA = {}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "cfg(wruster_mc)", "enable": "mc/wruster is a shadow crate that compiles /repo/wruster/src with --cfg wruster_mc set by its build script, against the façade crates of /verif/mc", "source_commits": ["88cd560259b8e830deb4cf8a57f6a2b40b8886a5"]},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": C[i][1], "level": C[i][0], "level_note": C[i][2]} for i in ids if i in C],
 "not_applicable": [{"property": i, "reason": NA.get(i, "not claimed yet: the check for it is being built")} for i in ids if i not in C],
 "notes": "DESIGN.md describes the machinery, KNOWN_FINDINGS the defects found and fixed.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
