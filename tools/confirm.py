"""Confirm planted bugs in a scratch copy: python3 tools/confirm.py ID...   (patch applies, tests pass, demo 0 / nonzero)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "unset PYTHONPATH; . /opt/vp/env.sh; export PYTHONPATH=%s; cd %s; "


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **k)


def demo(d, w):
    t = "/tmp/sd_demo_%d" % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(ENV % (w, w) + "timeout 300 bash %s/demo.sh" % t)
    shutil.rmtree(t, ignore_errors=True)
    return r


for i in sys.argv[1:]:
    d = os.path.join(V, "seeded", i)
    w = "/tmp/sd_" + i
    shutil.rmtree(w, ignore_errors=True)
    sh("git clone -q /repo " + w)
    a = demo(d, w)
    r = sh("cd %s && git apply %s/patch.diff" % (w, d))
    if r.returncode:
        print(i, "PATCH", r.stderr); continue
    b = demo(d, w)
    sh(ENV % (w, w) + "python -m pytest -q --tb=short -p no:cacheprovider -n 8 --dist worksteal --mpl --mpl-baseline-path=tests/imgs_baseline --timeout=300 --basetemp=/tmp/sdt_%s -o junit_family=xunit2 --junitxml=/tmp/sd_%s.xml; /usr/bin/python3 /opt/vp/results.py /tmp/sd_%s.json junit:/tmp/sd_%s.xml" % ((i,) * 4))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open("/tmp/sd_%s.json" % i))["passed"])
    miss = sorted(base - got)
    print(i, "OK" if a.returncode == 0 and b.returncode not in (0, 124) and not miss else "BAD", "clean", a.returncode, "patched", b.returncode, "tests lost", len(miss), miss[:3], flush=True)
    if a.returncode:
        print(a.stdout[-800:], a.stderr[-1500:])
    elif b.returncode:
        print("   ", b.stdout.strip().splitlines()[-1:] , b.stderr.strip().splitlines()[-1:])
    for p in (w, "/tmp/sdt_" + i):
        shutil.rmtree(p, ignore_errors=True)
    for p in ("/tmp/sd_%s.xml" % i, "/tmp/sd_%s.json" % i):
        os.path.exists(p) and os.remove(p)
