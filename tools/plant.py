"""plant(id, property, edits, demo, needs, breaks): write seeded/<id>/ from text replacements against /repo's HEAD."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
. /opt/vp/env.sh
export PYTHONPATH=$PWD%s
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$(dirname "$0")/demo.py" "$d/" && cd "$d" && python -W ignore demo.py
'''
PRE = '''import os, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
from pyDeltaRCM.model import DeltaModel
T = dict(Length=600.0, Width=1000.0, dx=50.0, L0_meters=100.0, N0_meters=200.0, Np_water=12, Np_sed=12, itermax=1,
         f_bedload=0.5, seed=3, save_dt=10**9, save_eta_grids=True)
def model(cls=DeltaModel, **k):
    c = dict(T); c.update(k); return cls(**c)
'''


def plant(id, prop, edits, demo, needs, breaks, pure=False):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/plant_" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, "pyDeltaRCM", f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(HEAD % (" NUMBA_DISABLE_JIT=1" if pure else ""))
    open(d + "/demo.py", "w").write(PRE + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
