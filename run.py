#!/usr/bin/env python3
"""Builds the harnesses of one property against /repo's current sources and explores them exhaustively.

usage: run.py PROPERTY [quick|thorough] [--unit NAME] [--case N]
exit 0: held on everything explored; exit 1 + VIOLATION line: violated; exit 2: could not be decided.
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = os.cpu_count() or 8
sys.path.insert(0, VERIF)
import checks

FLAGS = ["-std=c++14", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DCMAKE_DETECTED_GNU_COMPILER", "-DEIGEN_DONT_PARALLELIZE", "-DQL_FOUND",
         "-I" + VERIF + "/shim", "-I" + VERIF + "/shim/xml", "-I" + VERIF + "/harness", "-I" + REPO, "-isystem", "/usr/include/eigen3"]

def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr = {}
def header_hash(dirs):
    key = tuple(dirs)
    if key not in _hdr:
        h = hashlib.sha1()
        for d in dirs:
            for root, _, files in sorted(os.walk(d)):
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".inl")):
                        h.update(os.path.join(root, f).encode()); h.update(read(os.path.join(root, f)))
        _hdr[key] = h.hexdigest()
    return _hdr[key]

def group_sources(group):
    out = []
    for root, _, files in sorted(os.walk(os.path.join(REPO, group))):
        for f in sorted(files):
            if f.endswith(".cpp"):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                if not any(x in rel for x in checks.EXCLUDE):
                    out.append(p)
    return out

class BuildError(Exception):
    pass

def compile_one(src, flags, hdirs):
    key = sha(" ".join(flags), src, read(src), header_hash(hdirs))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, src + "\n" + r.stdout.decode(errors="replace")[-3000:]
    os.replace(tmp, obj)
    return obj, None

def build(units):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hd_base = [VERIF + "/shim", VERIF + "/harness"]
    jobs = {}   # (src, flags) -> future
    with cf.ThreadPoolExecutor(JOBS) as ex:
        plan = []
        for u in units:
            flags = FLAGS + u.get("flags", [])
            groups = u.get("groups", [])
            hdirs = hd_base + [os.path.join(REPO, g) for g in sorted(set(["scisim"] + groups))]
            hsrc = [os.path.join(VERIF, "harness", s) for s in u["src"]] + [os.path.join(REPO, s) for s in u.get("repo_src", [])]
            objs = []
            # Only the harness sees the unit's own flags, so units share the repository's objects.
            rflags = FLAGS + u.get("repo_flags", [])
            for s in hsrc:
                k = (s, tuple(flags if s.startswith(VERIF) else rflags))
                if k not in jobs:
                    jobs[k] = ex.submit(compile_one, s, list(k[1]), hdirs)
                objs.append((k, True))
            if "scisim" in groups:   # the stand-in for the QL library
                k = (os.path.join(VERIF, "shim", "ql.cpp"), tuple(FLAGS))
                if k not in jobs:
                    jobs[k] = ex.submit(compile_one, k[0], list(k[1]), hd_base)
                objs.append((k, False))
            for g in groups:
                for s in group_sources(g):
                    k = (s, tuple(rflags))
                    if k not in jobs:
                        jobs[k] = ex.submit(compile_one, s, rflags, [VERIF + "/shim", os.path.join(REPO, "scisim"), os.path.join(REPO, g)] + ([os.path.join(REPO, g[:-5])] if g.endswith("utils") else []))
                    objs.append((k, False))
            plan.append((u, flags, objs))
        errs = []
        for u, flags, objs in plan:
            mains, libs = [], []
            for k, ismain in objs:
                o, e = jobs[k].result()
                if e:
                    # A repository file that does not build is left out; linking decides whether it was needed.
                    if ismain:
                        errs.append(e)
                    else:
                        print("note: could not compile " + e, file=sys.stderr)
                    continue
                (mains if ismain else libs).append(o)
            if errs:
                continue
            exe = os.path.join(BUILD, "bin", u["name"] + "-" + sha(u["name"], *sorted(mains + libs))[:16])
            if not os.path.exists(exe):
                lib = exe + ".a"
                if os.path.exists(lib):
                    os.remove(lib)
                if libs:
                    subprocess.run(["ar", "rcs", lib] + libs, check=True)
                r = subprocess.run(["g++"] + mains + ([lib] if libs else []) + ["-o", exe + ".tmp"] + u.get("ldflags", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if libs:
                    os.remove(lib)
                if r.returncode != 0 and u.get("fallback"):
                    # A refactoring moved something this unit needs: link against whole directories instead.
                    u2 = dict(u, groups=u["fallback"], fallback=None, repo_src=[])
                    build([u2])
                    u["exe"] = u2["exe"]
                    continue
                if r.returncode != 0:
                    errs.append("link " + u["name"] + "\n" + r.stdout.decode(errors="replace")[-3000:])
                    continue
                os.replace(exe + ".tmp", exe)
            u["exe"] = exe
        if errs:
            raise BuildError("\n".join(errs))

def run_shard(u, tier, shard, of, work, timeout, case=None):
    tag = "%s.%s" % (u["name"], shard if case is None else "case%d" % case)
    out = os.path.join(work, tag + ".out")
    status = os.path.join(work, tag + ".status")
    for p in (out, status):
        if os.path.exists(p):
            os.remove(p)
    cmd = [u["exe"], "--shard", str(shard), "--of", str(of), "--tier", tier, "--out", out, "--status", status]
    if case is not None:
        cmd += ["--case", str(case)]
    cwd = os.path.join(work, tag + ".cwd")
    os.makedirs(cwd, exist_ok=True)
    err = os.path.join(work, tag + ".err")
    timed_out = False
    with open(err, "wb") as e:
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=e, timeout=timeout, cwd=cwd, env=dict(os.environ, VP_SCRATCH=cwd)).returncode
        except subprocess.TimeoutExpired:
            rc, timed_out = None, True
    shutil.rmtree(cwd, ignore_errors=True)
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    res = {"rc": rc, "done": None, "fail": None, "timed_out": timed_out}
    for r in recs:
        if r["kind"] == "DONE":
            res["done"] = r
        if r["kind"] == "FAIL":
            res["fail"] = r
    if res["done"]:
        a = array.array("Q")
        p = out + ".states"
        if os.path.exists(p):
            a.frombytes(read(p))
            os.remove(p)
        res["states"] = a
    elif not res["fail"] and not timed_out:
        st = read(status).split(b"\0")[0].decode(errors="replace") if os.path.exists(status) else ""
        idx, _, desc = st.partition("\n")
        tail = read(err).decode(errors="replace")[-1500:]
        res["fail"] = {"case": int(idx) if idx.strip().lstrip("-").isdigit() else -1, "desc": desc,
                       "msg": "terminated abnormally (status %s): %s" % (rc, tail)}
    return res

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        return subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    only_unit = sys.argv[sys.argv.index("--unit") + 1] if "--unit" in sys.argv else None
    only_case = int(sys.argv[sys.argv.index("--case") + 1]) if "--case" in sys.argv else None
    t0 = time.time()
    C = checks.CHECKS[prop]
    units = [dict(u) for u in C["units"] if only_unit in (None, u["name"])]
    try:
        build(units)
    except BuildError as e:
        print("BUILD FAILED: the harness could not be built against %s\n%s" % (REPO, e))
        return 2
    tb = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    work = tempfile.mkdtemp(prefix="vp-" + prop + "-")
    violations, per_unit, all_states = [], {}, set()
    tot = {"transitions": 0, "cases": 0, "checks": 0}
    samples, outcomes = [], {}
    undecided = []
    known = load_known(prop)
    try:
        tasks = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for u in units:
                if only_case is not None:
                    tasks.append((u, 0, ex.submit(run_shard, u, tier, 0, 1, work, budget, only_case)))
                else:
                    n = u.get("shards", JOBS)
                    for s in range(n):
                        tasks.append((u, s, ex.submit(run_shard, u, tier, s, n, work, budget - (tb - t0))))
            results = [(u, s, f.result()) for u, s, f in tasks]
        for u, s, r in results:
            if r["done"]:
                d = r["done"]
                pu = per_unit.setdefault(u["name"], {"cases": 0, "transitions": 0, "checks": 0, "cases_total": d["cases_total"]})
                pu["cases"] += d["cases_run"]; pu["transitions"] += d["transitions"]; pu["checks"] += d["checks"]
                tot["cases"] += d["cases_run"]; tot["transitions"] += d["transitions"]; tot["checks"] += d["checks"]
                all_states.update((u["name"], x) for x in r["states"])
                for k, v in d["outcomes"].items():
                    outcomes[u["name"] + ":" + k] = outcomes.get(u["name"] + ":" + k, 0) + v
                if s < 2:
                    samples += [u["name"] + ": " + x for x in d["samples"][:2]]
            elif r["fail"]:
                f = r["fail"]
                # Replay before report
                again = run_shard(u, tier, 0, 1, work, 240, f["case"]) if f["case"] >= 0 else {"done": None}
                if again["done"] and only_case is None:
                    # Not reproducible in isolation: does the whole shard fail again (state carried between cases)?
                    again = run_shard(u, tier, s, u.get("shards", JOBS), work, budget)
                if again["done"]:
                    print("note: %s case %s did not fail again on replay: %s" % (u["name"], f["case"], f["msg"]), file=sys.stderr)
                    undecided.append(u["name"])
                    continue
                if not any(v["unit"] == u["name"] for v in violations):
                    violations.append({"unit": u["name"], "case": f["case"], "desc": f["desc"], "msg": f["msg"]})
            else:
                undecided.append(u["name"] + " (time budget)")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    lines = []
    for i, v in enumerate(violations):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, v["unit"]))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, replay="python3 %s/run.py %s %s --unit %s --case %d" % (VERIF, prop, tier, v["unit"], v["case"])), f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": len(all_states), "transitions": tot["transitions"], "traces_validated_against_impl": tot["cases"],
                       "assertions_evaluated": tot["checks"], "samples": samples[:12], "exhaustive": not undecided and not violations and only_case is None,
                       "bounds": C["bounds"][tier] if isinstance(C["bounds"], dict) else C["bounds"],
                       "per_unit": per_unit, "outcomes": dict(sorted(outcomes.items())[:60]), "build_s": round(tb - t0, 1)},
          "assumptions": C.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    if only_case is None and only_unit is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d assertions=%d build=%.0fs wall=%.0fs" % (prop, tier, len(all_states), tot["transitions"], tot["cases"], tot["checks"], tb - t0, wall))
    for n, pu in per_unit.items():
        print("  %s: %s" % (n, pu))
    for k, v in sorted(outcomes.items())[:60]:
        print("    outcome %s: %d" % (k, v))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v, l in zip(violations, lines):
        print("case %d: %s\n  %s" % (v["case"], v["desc"], v["msg"]))
        print(l)
    if violations:
        return 1
    if undecided:
        print("UNDECIDED: " + ", ".join(undecided))
        return 2
    return 0

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out

if __name__ == "__main__":
    sys.exit(main())
