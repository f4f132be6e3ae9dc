#!/usr/bin/env python3
"""Mutation campaign: makes many small mechanical changes to the repository's sources, each in a scratch copy, and reports which
checks notice each one. Survivors are read by hand (equivalent change, unclaimed behaviour, or a gap to close).

usage: mutate.py WORKERS OUT.jsonl PER_FILE SEED FILE_GLOB...      (files relative to /repo)
Runs each worker in a mount namespace that shows its own copy as /tmp/mut/repo, so that all share one object cache.
"""
import fnmatch, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time, threading, queue

ROOT = "/tmp/mut"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SKIP = re.compile(r'^\s*(//|assert|#|std::cerr|std::cout|case |using |template|namespace|class |typedef|\}|\{|else|const auto|return;|static_assert|virtual|public|private)|assert\(|static_cast<void>|cerr|qDebug')
def mutants(path):
    src = open(path).read().split("\n")
    out = []
    depth = 0
    inblock = False
    for i, l in enumerate(src):
        if l.strip().startswith("#ifndef NDEBUG") or l.strip().startswith("#ifndef PORTAB") :
            inblock = True
        if inblock:
            if l.strip().startswith("#e"):
                inblock = False
            continue
        code = l.split("//")[0]
        if SKIP.search(code) or not code.strip():
            continue
        def sub(pat, rep, what):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((i, new, what))
        sub(r" \+ ", " - ", "plus->minus"); sub(r" - ", " + ", "minus->plus")
        sub(r" \+= ", " -= ", "+= -> -="); sub(r" -= ", " += ", "-= -> +="); sub(r" [+-]= ", " = ", "op= -> =")
        sub(r" < ", " <= ", "< -> <="); sub(r" <= ", " < ", "<= -> <"); sub(r" > ", " >= ", "> -> >="); sub(r" >= ", " > ", ">= -> >")
        sub(r" < ", " > ", "< -> >"); sub(r" > ", " < ", "> -> <")
        sub(r" == ", " != ", "== -> !="); sub(r" != ", " == ", "!= -> ==")
        sub(r" && ", " || ", "&& -> ||"); sub(r" \|\| ", " && ", "|| -> &&")
        sub(r"\btrue\b", "false", "true->false"); sub(r"\bfalse\b", "true", "false->true")
        sub(r"!(?=[\w(])", "", "drop !")
        sub(r"(?<![\w.])0\.5\b", "1.0", "half"); sub(r"(?<![\w.])2\.0\b", "1.0", "two")
        sub(r"(?<![\w.<])0(?=[ ,\])])(?!\.)", "1", "0->1"); sub(r"(?<![\w.<])1(?=[ ,\])])(?!\.)", "0", "1->0"); sub(r"(?<![\w.<])2(?=[ ,\])])(?!\.)", "1", "2->1")
        sub(r"(?<![\w.<])3 \*", "2 *", "3*->2*")
        sub(r"\.first\b", ".second", "first->second"); sub(r"\.second\b", ".first", "second->first")
        sub(r"(?<=[=(,\s])-(?=[\w(])", "", "drop unary -")
        sub(r"\.x\(\)", ".y()", "x->y"); sub(r"\.y\(\)", ".x()", "y->x"); sub(r"\.z\(\)", ".y()", "z->y")
        sub(r"\bidx0\b", "idx1", "idx"); sub(r"\bsin\(", "cos(", "sin->cos"); sub(r"\bmin\(", "max(", "min->max"); sub(r"\bmax\(", "min(", "max->min")
        sub(r"\.transpose\(\)", "", "drop transpose"); sub(r"\.normalized\(\)", "", "drop normalized"); sub(r"\bfabs\(", "(", "drop fabs")
        sub(r"\bcontinue;", "break;", "continue->break"); sub(r"\bbreak;", "continue;", "break->continue")
        sub(r"\bif\( (.+) \)\s*$", r"if( !( \1 ) )", "negate if")
        if re.match(r"^\s+[\w>.:\[\]()\- ,<*+]+(\+?-?\*?=[^=].*|\(.*\));\s*$", code) and not re.match(r"^\s*(const|return|int|scalar|unsigned|std::\w+<.*> \w+|auto|Vector\w+ |Matrix\w+ |Array\w+ |bool|break|continue|using|throw|SparseMatrix\w+ \w)\b", code):
            out.append((i, re.match(r"^\s*", code).group(0) + ";", "drop statement"))
    return src, out

SYSDIR = {"ball2d": "ball2d", "rigidbody2d": "rb2d", "rigidbody3d": "rb3d"}
ORDER = ["P11", "P12", "P02", "P14", "P15", "P10", "P07", "P08", "P04", "P03", "P09", "P18", "P05", "P06", "P01", "P16", "P17", "P13"]

def plan(rel, line, checks, only, cov):
    """(property, unit) pairs to run for a changed line, cheap first: those that were seen to execute it."""
    top = rel.split("/")[0]
    out = []
    hits = set(cov.get(rel, {}).get(str(line + 1), []))
    if not hits:  # a continued statement: the nearest instrumented line above
        for d in range(1, 6):
            if str(line + 1 - d) in cov.get(rel, {}):
                hits = set(cov[rel][str(line + 1 - d)]); break
    for p in only or ORDER:
        for u in checks.CHECKS[p]["units"]:
            if p in ("P13", "P17"):
                if top not in u.get("groups", []) or not (only or (p == "P13" and top.endswith("utils")) or (p == "P17" and "Python" in rel or "Scripting" in rel)):
                    continue
            elif u["name"] not in hits:
                continue
            out.append((p, u))
    return out

def worker(k, spec):
    sys.path.insert(0, HERE)
    os.environ["VERIF_REPO"] = ROOT + "/repo"
    os.environ["VERIF_BUILD"] = ROOT + "/build"
    import run, checks, concurrent.futures as cf
    base = set(glob.glob(ROOT + "/build/bin/*"))
    cov = json.load(open(spec["cov"]))
    njobs = max(1, 8 // spec["workers"])
    run.JOBS = njobs
    def log(d):
        with open(spec["out"], "a") as f:
            f.write(json.dumps(d) + "\n")
    while True:
        # next item: claimed by creating a marker
        item = None
        for n, it in enumerate(spec["items"]):
            try:
                os.close(os.open(spec["claims"] + "/%d" % n, os.O_CREAT | os.O_EXCL | os.O_WRONLY)); item = it; break
            except FileExistsError:
                continue
        if item is None:
            return
        rel, line, new, what = item["file"], item["line"], item["new"], item["what"]
        p = ROOT + "/repo/" + rel
        orig = open(p).read()
        L = orig.split("\n"); old = L[line]; L[line] = new
        open(p, "w").write("\n".join(L))
        run._hdr.clear()
        res = dict(item, old=old.strip(), new=new.strip(), ran=[], caught=None)
        t0 = time.time()
        try:
            for prop, u in plan(rel, line, checks, spec["only"], cov):
                u = dict(u)
                try:
                    so = sys.stderr; sys.stderr = open(os.devnull, "w")
                    try:
                        run.build([u])
                    finally:
                        sys.stderr = so
                except run.BuildError:
                    res["caught"] = "NOBUILD"; break
                work = tempfile.mkdtemp(prefix="vpm-")
                known = run.load_known(prop)
                hit = None
                n = u.get("shards", 8)
                stop = threading.Event()
                def one(s):
                    if stop.is_set():
                        return None
                    r = run.run_shard(u, "quick", s, n, work, 400)
                    if r["fail"] or r["timed_out"]:
                        stop.set()
                    return r
                with cf.ThreadPoolExecutor(njobs) as ex:
                    for r in ex.map(one, range(n)):
                        if r and r["fail"]:
                            hit = r["fail"]["msg"][:160]
                        elif r and r["timed_out"]:
                            hit = hit or "TIMEOUT"
                shutil.rmtree(work, ignore_errors=True)
                if u["exe"] not in base and os.path.exists(u["exe"]):
                    os.remove(u["exe"])
                res["ran"].append(u["name"])
                if hit:
                    res["caught"] = u["name"]; res["msg"] = hit; break
        finally:
            open(p, "w").write(orig)
        # mutants' executables are not needed again
        res["s"] = round(time.time() - t0)
        log(res)

def main():
    if sys.argv[1] == "--prebuild":
        sys.path.insert(0, HERE)
        os.environ["VERIF_REPO"] = ROOT + "/repo"
        os.environ["VERIF_BUILD"] = ROOT + "/build"
        import run, checks
        return run.build([dict(u) for p in checks.CHECKS for u in checks.CHECKS[p]["units"]])
    if sys.argv[1] == "--worker":
        spec = json.load(open(sys.argv[3]))
        return worker(int(sys.argv[2]), spec)
    W, out, per, seed = int(sys.argv[1]), os.path.abspath(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    globs = [a for a in sys.argv[5:] if not a.startswith("--")]
    only = [a[2:] for a in sys.argv[5:] if a.startswith("--P")]
    rnd = random.Random(seed)
    os.makedirs(ROOT + "/repo", exist_ok=True)
    cov = next((a[6:] for a in sys.argv if a.startswith("--cov=")), "/tmp/cov/cov.json")
    COV = json.load(open(cov))
    files = []
    for g in globs:
        files += sorted(os.path.relpath(f, "/repo") for f in glob.glob("/repo/" + g, recursive=True))
    items = []
    for f in files:
        if any(x in f for x in ("Ipopt", "LCPOperatorQLVP", "HDF5", "StateOutput", "ImpactSolution", "PythonObject", "Rendering", "XMLExporter")):
            continue
        src, ms = mutants("/repo/" + f)
        if f in COV:
            ms = [m for m in ms if COV[f].get(str(m[0] + 1), ["?"])]
        rnd.shuffle(ms)
        # at most two per line
        cnt = {}
        pick = []
        for m in ms:
            if cnt.get(m[0], 0) < 1 or (len(ms) < per and cnt[m[0]] < 2):
                cnt[m[0]] = cnt.get(m[0], 0) + 1; pick.append(m)
            if len(pick) >= per:
                break
        items += [dict(file=f, line=i, new=n, what=w) for i, n, w in pick]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["what"]))
    items = [i for i in items if (i["file"], i["line"], i["what"]) not in done]
    rnd.shuffle(items)
    print(len(items), "mutants in", len(files), "files", flush=True)
    tag = str(os.getpid())
    claims = ROOT + "/claims" + tag
    os.makedirs(claims)
    spec = dict(cov=cov, items=items, out=out, workers=W, claims=claims, only=only)
    sp = ROOT + "/spec%s.json" % tag
    json.dump(spec, open(sp, "w"))
    snap = ROOT + "/snap" + tag   # the checks as they are now: editing them does not disturb the campaign
    subprocess.run("mkdir -p %s && tar -C %s --exclude=.git --exclude=.build -cf - . | tar -C %s -xf -" % (snap, HERE, snap), shell=True, check=True)
    ps = []
    for k in range(W):
        d = ROOT + "/w%s_%d" % (tag, k)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "/repo/", d + "/"]) if shutil.which("rsync") else subprocess.run("mkdir -p %s && tar -C /repo --exclude=.git -cf - . | tar -C %s -xf -" % (d, d), shell=True, check=True)
        ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", "mount --bind %s %s/repo && mount --bind %s %s && exec python3 %s --worker %d %s" % (d, ROOT, snap, HERE, os.path.abspath(__file__), k, sp)]))
    for p in ps:
        p.wait()
    for k in range(W):
        shutil.rmtree(ROOT + "/w%s_%d" % (tag, k), ignore_errors=True)
    shutil.rmtree(claims); shutil.rmtree(snap)

main()
