#!/usr/bin/env python3
"""Runs the property-based check of one property against /repo's working tree.

  check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check itself could not run.
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)

def glob_repo(pats):
    out = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(REPO, p)))
        out += g
    return out

def build(stage, bdir, fuzz=False):
    """Compiles the harness of a stage with the sources of /repo; returns the binary."""
    os.makedirs(bdir, exist_ok=True)
    cxx = "clang++" if fuzz else stage.get("cxx", "g++")
    san = stage.get("san", "address")
    base = [cxx, "-std=gnu++14", "-O1" if fuzz else stage.get("opt", "-O0"), "-g1", "-w",
            "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-DFOCUS=%d" % stage.get("focus", 0)]
    if san: base += ["-fsanitize=" + san]
    if fuzz: # clang is stricter about the templates of mathic
        base += ["-DPBT_FUZZ", "-fno-access-control", "-fdelayed-template-parsing",
                 "-fno-sanitize=float-cast-overflow"] # as with g++
    base += stage.get("flags", [])
    jobs = [] # (source, object, extra)
    jobs.append((VERIF + "/harness/pbt.cpp", "h_pbt.o", []))
    for f in stage["files"]:
        name, parts = f if isinstance(f, tuple) else (f, 1)
        for p in range(parts):
            jobs.append((VERIF + "/harness/%s.cpp" % name, "h_%s%d.o" % (name, p),
                         ["-DPART=%d" % p, "-DPARTS=%d" % parts]))
    lib = [s for s in glob_repo(["src/mathic/*.cpp"]) if os.path.basename(s) != "main.cpp"]
    if not lib: die("no sources of mathic found in " + REPO)
    for s in lib + glob_repo(stage.get("repo_srcs", [])):
        rel = os.path.relpath(s, REPO).replace("/", "_")
        jobs.append((s, "r_" + rel[:-4] + ".o", stage.get("repo_flags", [])))
    def one(j):
        src, obj, extra = j
        if fuzz and obj != "h_pbt.o": extra = extra + ["-fsanitize=fuzzer-no-link"]
        r = sh(base + extra + ["-c", src, "-o", os.path.join(bdir, obj)])
        return (r.returncode, src, r.stdout)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, jobs))
    for rc, src, out in res:
        if rc != 0:
            print(out[:4000])
            die("compiling %s failed" % src)
    objs = [os.path.join(bdir, j[1]) for j in jobs if j[1].startswith("h_")]
    objs += [os.path.join(bdir, j[1]) for j in jobs if j[1].startswith("r_")]
    exe = os.path.join(bdir, "harness.exe")
    if fuzz: san = san + ",fuzzer" if san else "fuzzer"
    link = [cxx] + (["-fsanitize=" + san] if san else []) + stage.get("flags", []) + objs + \
        stage.get("link", []) + ["-o", exe, "-lmemtailor", "-pthread"]
    r = sh(link)
    if r.returncode != 0:
        print(r.stdout[:4000])
        die("linking failed")
    return exe

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"

def known_findings(pid):
    """Committed findings that are not repaired: lines 'known: property=<id> match=<regex> :: <text>'."""
    out = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def fuzz(a, st, exe, fdir, seconds):
    """Coverage-guided search with libFuzzer for the given time: every input is the choices of one case.
    Returns (cases, discards, set of non-trivial ones, coverage, crashing inputs)."""
    import random
    workers = min(8, os.cpu_count() or 4)
    corpus = os.path.join(fdir, "corpus")
    os.makedirs(corpus)
    rnd = random.Random(a.seed)
    for i in range(256):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(bytes(rnd.getrandbits(8) for _ in range(16 << (i % 9))))
    env = dict(ENV)
    env.update(st.get("env", {}))
    env.update({"PBT_SCRATCH": fdir, "PBT_REPO": REPO})
    procs = []
    for w in range(workers):
        e = dict(env, PBT_FUZZ_STATS=os.path.join(fdir, "stats%d" % w))
        out = open(os.path.join(fdir, "log%d" % w), "w")
        procs.append(subprocess.Popen([exe, "-seed=%d" % (a.seed * 100 + w + 1), "-max_total_time=%d" % seconds, "-max_len=6000",
            "-len_control=0", "-timeout=100", "-rss_limit_mb=3500", "-reload=1", "-print_final_stats=1", "-use_value_profile=%d" % (w % 2),
            "-artifact_prefix=%s/a%d-" % (fdir, w), corpus], stdout=out, stderr=out, cwd=fdir, env=e))
    for p in procs: p.wait()
    cases = discards = cov = 0
    seen = set()
    for w in range(workers):
        try:
            for line in open(os.path.join(fdir, "stats%d" % w)):
                t = line.split()
                if t[0] == "N": cases += int(t[1]); discards += int(t[2])
                else: seen.add(t[1])
        except OSError: pass
        for m in re.finditer(r"cov: (\d+)", open(os.path.join(fdir, "log%d" % w), errors="replace").read()):
            cov = max(cov, int(m.group(1)))
    arts = [x for x in sorted(glob.glob(os.path.join(fdir, "a*-*"))) if re.search(r"/a\d+-(crash|timeout|oom|leak)-", x)]
    return cases, discards, seen, cov, arts

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--fuzz", type=int, default=-1, help="seconds of coverage-guided search per stage")
    a = ap.parse_args()
    if a.prop not in PROPS: die("unknown property " + a.prop)
    prop = PROPS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    top = os.path.join(VERIF, "build", a.prop)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    stages = [s for s in prop["stages"] if tier in s.get("tiers", ("quick", "thorough"))]
    totals = {"evaluations": 0, "distinct_nontrivial": 0, "discards": 0}
    labels, samples, stage_info = {}, [], []
    violation = None
    replayed = False
    try:
        for i, st in enumerate(stages):
            name = st.get("name", "main")
            if a.replay:
                m = re.search(r"^# stage (.*)$", open(a.replay).read(), re.M)
                if m and m.group(1).strip() != name: continue
            sdir = os.path.join(top, "s%d" % i)
            tb = time.time()
            if st.get("reuse") and not a.replay: # the executable of the stage before, with other arguments
                os.makedirs(sdir, exist_ok=True)
            else:
                exe = build(st, sdir)
            tb = time.time() - tb
            env = dict(ENV)
            env.update(st.get("env", {}))
            env["PBT_SCRATCH"] = sdir
            env["PBT_REPO"] = REPO
            if a.replay:
                replayed = True
                r = subprocess.run([exe, "--prop", a.prop, "--replay", os.path.abspath(a.replay), "--out", sdir] + st.get("args", []),
                                   cwd=sdir, env=env)
                if r.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                    return 1
                if r.returncode != 0: die("replay ended with status %d" % r.returncode)
                continue
            cases = a.cases or (st["cases"] if tier == "quick" else st.get("thorough", st["cases"] * 30))
            limit = st.get("max_seconds", 240) if tier == "quick" else st.get("thorough_seconds", 1500)
            r = sh([exe, "--prop", a.prop, "--cases", str(cases), "--seed", str(a.seed),
                    "--workers", str(st.get("workers", min(8, os.cpu_count() or 4))), "--out", sdir,
                    "--case-cpu", str(st.get("case_cpu", 20)), "--max-seconds", str(limit)] + st.get("args", []), cwd=sdir, env=env)
            try:
                res = json.load(open(os.path.join(sdir, "result.json")))
            except Exception as e:
                print(r.stdout[:3000])
                die("the harness gave no result (status %s)" % r.returncode)
            totals["evaluations"] += res["evaluations"]
            totals["distinct_nontrivial"] += res["distinct_nontrivial"]
            totals["discards"] += res["discards"]
            for k, v in res["labels"].items(): labels[k] = labels.get(k, 0) + v
            samples += [s[:1500] for s in res["samples"][:4]]
            stage_info.append({"stage": name, "evaluations": res["evaluations"], "planned": res["planned"],
                               "distinct_nontrivial": res["distinct_nontrivial"],
                               "build_s": round(tb, 1), "run_s": round(res["seconds"], 1)})
            if res["verdict"] == "violation":
                dst = os.path.join(outdir, a.prop + ".replay.txt")
                text = open(res["replay"] if os.path.isabs(res["replay"]) else os.path.join(sdir, res["replay"])).read()
                with open(dst, "w") as f: f.write("# stage %s\n" % name + text)
                violation = (res["message"], dst)
                break
            if res["verdict"] != "ok":
                print(r.stdout[:3000])
                die("verdict %s: %s" % (res["verdict"], res.get("message", "")[:500]))
            seconds = a.fuzz if a.fuzz >= 0 else st.get("fuzz", 100) if tier == "thorough" and not st.get("reuse") else 0
            if seconds == 0 or st.get("reuse") or st.get("fuzz") == 0: continue
            # the same cases once more, chosen by coverage
            tb = time.time()
            fdir = os.path.join(top, "f%d" % i)
            fexe = build(st, fdir, True)
            tb = time.time() - tb
            tr = time.time()
            n, d, seen, cov, arts = fuzz(a, st, fexe, fdir, seconds)
            if n == 0 and not arts:
                print(open(os.path.join(fdir, "log0"), errors="replace").read()[-2000:])
                die("the fuzzer gave no result")
            totals["evaluations"] += n
            totals["distinct_nontrivial"] += len(seen)
            totals["discards"] += d
            stage_info.append({"stage": name + ", coverage-guided", "evaluations": n, "planned": n, "distinct_nontrivial": len(seen),
                               "edges": cov, "build_s": round(tb, 1), "run_s": round(time.time() - tr, 1), "artifacts": len(arts)})
            for art in arts: # reproduced and shrunk by the ordinary executable
                r = sh([exe, "--prop", a.prop, "--from-bytes", art, "--out", sdir, "--case-cpu", str(st.get("case_cpu", 20))] + st.get("args", []),
                       cwd=sdir, env=env)
                try: res = json.load(open(os.path.join(sdir, "result.json")))
                except Exception: res = {"verdict": "none"}
                if res["verdict"] == "violation":
                    dst = os.path.join(outdir, a.prop + ".replay.txt")
                    text = open(res["replay"] if os.path.isabs(res["replay"]) else os.path.join(sdir, res["replay"])).read()
                    with open(dst, "w") as f: f.write("# stage %s\n" % name + text)
                    violation = (res["message"], dst)
                    break
                w = re.search(r"/a(\d+)-", art).group(1)
                log = open(os.path.join(fdir, "log" + w), errors="replace").read()
                keep = os.path.join(outdir, "%s.%s" % (a.prop, os.path.basename(art)))
                shutil.copy(art, keep)
                print("note: %s is not reproduced by the ordinary executable:\n%s" % (keep, log[-1500:]))
            if violation: break
        if a.replay:
            if not replayed: die("the replay names a stage that this tier does not have")
            print("property %s: the replay passes" % a.prop)
            return 0
        known = None
        if violation:
            for pat, text in known_findings(a.prop):
                if re.search(pat, violation[0], re.S): known = text
        for pat, text in known_findings(a.prop):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, text))
        vcount = 1 if violation and not known else 0
        ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": totals["evaluations"],
                           "distinct_nontrivial": totals["distinct_nontrivial"],
                           "rule": prop["rule"], "samples": samples[:6],
                           "discarded": totals["discards"], "labels": labels, "stages": stage_info},
              "assumptions": prop.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": vcount}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("property %s (%s, seed %d): %d cases, %d non-trivial, %.1f s" % (
            a.prop, tier, a.seed, totals["evaluations"], totals["distinct_nontrivial"], time.time() - t0))
        if vcount:
            print("  " + violation[0].strip().replace("\n", "\n  ")[:3000])
            print("VIOLATION property=%s replay=%s" % (a.prop, violation[1]))
            return 1
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(top, ignore_errors=True)

sys.exit(main())
