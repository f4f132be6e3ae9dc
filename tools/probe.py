#!/usr/bin/env python3
"""probe.py FILE [names]: apply each hand-written change of PROBES = [(name, [props], [(path, old, new)...])] to a scratch
copy of /repo and run the quick checks of the named properties there; prints which ones report a violation."""
import os, subprocess, sys, runpy, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, B = "/tmp/pb/repo", "/tmp/pb/build"
os.makedirs("/tmp/pb", exist_ok=True)
subprocess.run("rm -rf %s && cp -a /repo %s" % (R, R), shell=True, check=True)
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B)
for name, props, edits in runpy.run_path(sys.argv[1])["PROBES"]:
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    orig = {}
    ok = True
    for p, a, b in edits:
        s = open(R + "/" + p).read()
        orig.setdefault(p, s)
        if s.count(a) != 1:
            print("%-34s EDIT %s matches %d times" % (name, p, s.count(a))); ok = False; break
        open(R + "/" + p, "w").write(s.replace(a, b))
    if ok:
        res = []
        for q in props:
            t = time.time()
            r = subprocess.run([sys.executable, HERE + "/run.py", q, "quick"], env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("%s %s %ds" % (q, "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "rc=%d" % r.returncode, time.time() - t))
            open("/tmp/pb/%s.%s.log" % (name, q), "w").write(r.stdout)
        print("%-34s %s" % (name, "  ".join(res)), flush=True)
    for p, s in orig.items():
        open(R + "/" + p, "w").write(s)
