"""Writes MANIFEST.json from the check modules present in mc/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exhaustive enumeration of run / stop / resume histories on the real model", "model_checking"),
 "C02": ("exhaustive enumeration of output selections x save/stop/resume histories on the real model, file compared with the states at saving", "model_checking"),
 "C03": ("exhaustive enumeration of cadence histories (dt x save x checkpoint intervals x steps) against a reference automaton", "model_checking"),
 "C04": ("exhaustive crash-point enumeration at system-call level, recovery checked after each", "fault_enumeration"),
 "C05": ("exhaustive enumeration of configurations and call sequences; event traces checked against the documented protocol automaton", "model_checking"),
 "C06": ("exhaustive enumeration of observation settings, generator disturbances and job orders; state trajectories compared", "model_checking"),
 "C07": ("exhaustive enumeration of job specifications against a reference expansion", "model_checking"),
 "C08": ("stateless model checking of the real batch runner: all interleavings under a controlled scheduler x all failure assignments", "model_checking"),
 "C09": ("exhaustive enumeration of duration settings and their sources against a reference automaton", "model_checking"),
 "C10": ("exhaustive enumeration of parameters x values x sources against the documented parameter table", "model_checking"),
 "C11": ("exhaustive enumeration of assignment sequences on live models, compared with freshly configured ones", "model_checking"),
 "C12": ("exhaustive enumeration of domain geometries, every cell checked against an independent specification", "model_checking"),
 "C13": ("bounded exhaustive exploration of parcel random choices on the real code, every move checked against an independent specification", "model_checking"),
 "C14": ("bounded exhaustive exploration of parcel walks and configurations; water surface recomputed independently in lockstep", "model_checking"),
 "C15": ("bounded exhaustive exploration of walks and configurations, invariants in every cell after every stage", "model_checking"),
 "C16": ("bounded exhaustive exploration of sediment parcel choices, volume balance of every parcel", "model_checking"),
 "C17": ("bounded exhaustive exploration of sediment parcel choices in lockstep with an independent specification", "model_checking"),
 "C18": ("exhaustive enumeration of per-cell deposit/erosion histories in lockstep with an independent specification", "model_checking"),
 "C19": ("exhaustive enumeration of subsidence and sea-level histories (settings x steps x resume) against a reference automaton", "model_checking"),
 "C20": ("exhaustive enumeration of output switches and switch histories against a reference automaton of the output folder", "model_checking"),
 "C22": ("exhaustive enumeration of histories of runs on one output folder against a reference automaton of the folder", "model_checking"),
 "C21": ("exhaustive enumeration of small flux/elevation fields and settings against an independent specification", "model_checking"),
}
NOTE = {
 "C04": "Every system call that changes a file is a crash point of the real process; writes are torn at page boundaries. Trusts that the kernel keeps completed calls (process death, not power loss).",
 "C08": "Complete state graph of the real run_jobs and job bodies within the stated numbers of jobs and slots; multiprocessing primitives are stand-ins with the documented semantics, the numerical model is a stub.",
}
NOTE_DEFAULT = "Executes the real code on every case of the stated bounded space; assumes that behaviour on these small domains, values and lengths represents larger ones."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, "mc", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
                           technique=T[i][0], level=T[i][1], level_note=NOTE.get(i, NOTE_DEFAULT), evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="Model checking applies, but the check is not built yet."))
json.dump(dict(version=1, setup_cmd="mkdir -p evidence && bash -c '. /opt/vp/env.sh && python -c \"import sys; sys.path.insert(0, \\\"/repo\\\"); import pyDeltaRCM, netCDF4, yaml\"'",
               checks=checks, not_applicable=na,
               notes="No hooks: the checks observe the code through its documented hooks, public attributes and replaced library calls. Known findings and repaired defects: known_findings.json."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
