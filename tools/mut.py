"""mut(name, [(file, old, new)...], [checks]): run checks against a scratch copy with a change applied (development aid)."""
import os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mut(name, edits, checks):
    w = "/tmp/mut_" + name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, "pyDeltaRCM", f)
        s = open(p).read()
        assert s.count(a) >= 1, (name, f, a)
        open(p, "w").write(s.replace(a, b, 1))
    for c in checks:
        r = subprocess.run(["bash", "run.sh", c, "quick"], cwd=V, env=dict(os.environ, MC_REPO=w), capture_output=True, text=True)
        lines = r.stdout.splitlines()
        v = [i for i, l in enumerate(lines) if l.startswith("VIOLATION")]
        print(name, c, "rc=%d" % r.returncode, (lines[v[0] - 2] if v else (lines or ["?"])[-1])[:220], r.stderr[-300:] if r.returncode == 2 else "", flush=True)
    shutil.rmtree(w, ignore_errors=True)
