#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], demo=C++ text, system)].
Writes /verif/seeded/<id>/ from a scratch clone of /repo."""
import json, os, runpy, shutil, subprocess, sys
V = "/verif"; W = "/tmp/mkseed_repo"
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    for path, old, new in s["edits"]:
        p = os.path.join(W, path); t = open(p).read()
        assert t.count(old) == 1, (s["id"], path, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
    for src, dst in s.get("files", []):
        o = os.path.join(d, dst); os.makedirs(os.path.dirname(o), exist_ok=True); shutil.copy(os.path.join(V, src), o)
    if s.get("script"):
        if "demo_lib.sh" in s["script"]: shutil.copy(os.path.join(V, "tools", "demo_lib.sh"), os.path.join(d, "demo_lib.sh"))
        for h in ("sys.h", "vp.h", "maps.h"):
            if '"%s"' % h in s["demo"] or (h == "vp.h" and '"sys.h"' in s["demo"]): shutil.copy(os.path.join(V, "harness", h), os.path.join(d, h))
        open(os.path.join(d, "demo.sh"), "w").write(s["script"])
    else:
        shutil.copy(os.path.join(V, "tools", "demo_lib.sh"), os.path.join(d, "demo_lib.sh"))
        for h in ("sys.h", "vp.h", "maps.h"):
            if '"%s"' % h in s["demo"] or (h == "vp.h" and '"sys.h"' in s["demo"]): shutil.copy(os.path.join(V, "harness", h), os.path.join(d, h))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n. "$(dirname "$0")/demo_lib.sh"\nbuild %s %s\n"$T/demo"\n' % (s["system"], s.get("flags", "")))
shutil.rmtree(W)
