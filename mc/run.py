import importlib
import os
import shutil
import subprocess
import sys
import tempfile

from mc import core


def preloaded(pid):
    """Some checks need the fault injector in the process: build it and start over under LD_PRELOAD."""
    src = getattr(importlib.import_module("mc.checks." + pid.lower()), "PRELOAD", None)
    if src is None or os.environ.get("MC_SHIM"):
        return None
    d = tempfile.mkdtemp(prefix="mcv_shim_")
    try:
        so = os.path.join(d, "shim.so")
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(core.VERIF, "mc", "native", src), "-ldl"], check=True)
        env = dict(os.environ, MC_SHIM=so, LD_PRELOAD=so)
        return subprocess.call([sys.executable, "-W", "ignore", "-m", "mc.run"] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        import json
        rc = preloaded(json.load(open(sys.argv[2]))["property"])
        sys.exit(core.replay(sys.argv[2]) if rc is None else rc)
    rc = preloaded(sys.argv[1])
    if rc is None:
        rc = core.main(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    sys.exit(rc)
