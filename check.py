#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY [quick|thorough] | check.py --setup | check.py --replay FILE

Compiles the harness crate together with /repo's crate and the Rust standard library to LLVM IR, explores
the harness entries of the property symbolically (engine/), and confirms every counterexample by running
it natively against the real build before reporting it. See DESIGN.md.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import irbuild
import plan as planmod
from irbuild import BUILD, BuildError, HARNESS

FEATS = {"F": ["mdns", "dnssec"], "D": [], "S": []}
SYMEX = os.path.join(VERIF, "engine/target/release/symex")
EVID = os.path.join(VERIF, "evidence")
STEP_LIMIT = 20_000_000
RLIMIT = 20_000_000  # of Z3, per query: about 10 s
T0 = time.time()


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def build_engine(log):
    env = irbuild.cargo_env(False)
    r = irbuild.run(["cargo", "build", "--release", "--offline"], log, cwd=os.path.join(VERIF, "engine"), env=env)
    if r.returncode != 0:
        raise BuildError("engine build failed\n" + r.stderr[-3000:])


def native_bin(feat, asan=False):
    return os.path.join(BUILD, "native-asan" if asan else "native", feat)


def build_native(feats, log, asan=False):
    """replay binaries: the real crate, dev profile, debug assertions and overflow checks on"""
    env = irbuild.cargo_env(False)
    tdir = os.path.join(BUILD, "native-asan" if asan else "native")
    extra = []
    if asan:
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        extra = ["--target", irbuild.TARGET]
    irbuild.forget(tdir)
    for f in feats:
        r = irbuild.run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", tdir] + extra
                        + (["--features", ",".join(FEATS[f])] if FEATS[f] else []), log,
                        cwd=irbuild.SEC if f == "S" else HARNESS, env=env)
        if r.returncode != 0:
            raise BuildError("native build failed\n" + r.stderr[-3000:])
        sub = os.path.join(tdir, irbuild.TARGET, "debug/replay") if asan else os.path.join(tdir, "debug/replay")
        shutil.copy2(sub, native_bin(f, asan) + "-replay")


def replay(feat, entry, params, hexin, timeout=30, asan=False):
    """(status, output): held, check, assumption, crash, timeout, noentry"""
    cmd = [native_bin(feat, asan) + "-replay", entry, ",".join(map(str, params)), hexin]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "no end within %d s" % timeout
    out = (r.stdout + r.stderr)[-3000:]
    return {0: "held", 10: "check", 20: "assumption", 30: "noentry"}.get(r.returncode, "crash"), "exit %d\n%s" % (r.returncode, out)


def run_engine(ll, jobs, out, total, only, log):
    cmd = [SYMEX, "--ll", ll, "--out", out, "-j", str(os.cpu_count() or 8), "--total", str(total), "--rlimit", str(RLIMIT)]
    for o in only:
        cmd += ["--only", o]
    for i, (entry, params, secs) in enumerate(jobs):
        cmd += ["--job", "j%d:%s:%s:%s:%d" % (i, entry, ",".join(map(str, params)), secs, STEP_LIMIT)]
    r = irbuild.run(cmd, log)
    return r.returncode, r.stderr


def collect(out, jobs):
    res = [dict(entry=e, params=list(p), limit_s=s, parts=0, paths=0, killed=0, forks=0, steps=0, maxsteps=0, incomplete=0, unknown=0, queries=0,
                sat=0, unsat=0, cached=0, modelhit=0, solver_s=0.0, max_query_s=0.0, wall_s=0.0, errors={}, covers={}, checks={},
                samples=[], funcs=set(), violations=[]) for e, p, s in jobs]
    for f in sorted(glob.glob(out + "/*.json")):
        j = json.load(open(f))
        a = res[int(j["job"][1:])]
        a["parts"] += 1
        for k in ("paths", "killed", "forks", "steps", "incomplete", "unknown", "queries", "sat", "unsat", "cached", "modelhit", "solver_s"):
            a[k] += j[k]
        for k in ("maxsteps", "max_query_s", "wall_s"):
            a[k] = max(a[k], j[k])
        for k in ("errors", "covers", "checks"):
            for x, n in j[k].items():
                a[k][x] = a[k].get(x, 0) + n
        a["samples"] += j["samples"]
        a["funcs"].update(j["funcs"])
        a["violations"] += j["violations"]
    return res


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.splitlines() if r.returncode == 0 else list(names)


def own(names):
    """the functions of the crate under test, readable"""
    out = set()
    for n in demangle(names):
        n = re.sub(r"\[[0-9a-f]+\]", "", n)
        if re.match(r"<?&?(mut )?maybe_dns", n):
            out.add(n[:160])
    return sorted(out)


def confirm(feat, job, v, log):
    """native confirmation of one engine violation -> (verdict, text)"""
    kind = v["kind"]
    st, out = replay(feat, job["entry"], job["params"], v["input"], timeout=20 if kind in ("hang", "recursion") else 60)
    if st in ("check", "crash"):
        return True, out
    if kind in ("hang", "recursion"):
        return (True, out) if st == "timeout" else (None, "the native run ended (%s); treated as a resource limit of the engine" % st)
    if kind in ("memory", "ub", "unreachable", "trap") and st == "held":
        try:
            build_native([feat], log, asan=True)
        except BuildError as e:
            return False, "no sanitizer build: %s" % e
        st, out = replay(feat, job["entry"], job["params"], v["input"], asan=True)
        if st in ("check", "crash"):
            return True, out
    return False, "native: %s\n%s" % (st, out)


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop] if os.path.exists(p) else []


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random(seed)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(EVID, "replays", prop + "-*")):
        os.unlink(f)
    log = os.path.join(BUILD, "log-%s.txt" % prop)
    open(log, "w").close()
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if "--only" in sys.argv:
        pat = sys.argv[sys.argv.index("--only") + 1]
        jobs_all = [j for j in planmod.plan(prop, tier) if re.search(pat, "%s:%s" % (j[1], ",".join(map(str, j[2]))))]
    else:
        jobs_all = planmod.plan(prop, tier)
    only = planmod.ONLY.get(prop, [])
    feats = [f for f in ("F", "D", "S") if any(j[0] == f for j in jobs_all)]
    known = known_findings(prop)
    natf = sorted(set(feats) | {k["features"] for k in known if k.get("entry")})
    say("%s %s: %d jobs, feature sets %s" % (prop, tier, len(jobs_all), feats))

    notes = []

    def irs():
        ir = {}
        for f in feats:
            try:
                ir[f] = irbuild.build_ir(f, FEATS[f], sorted({j[1] for j in jobs_all if j[0] == f}), log)
            except BuildError as e:
                if f != "S":
                    raise
                # the crate builds with the real cryptography (build_native) but not with the stand-ins
                notes.append("not explored: the crate does not build with the ideal cryptography of stubs/: %s" % str(e)[-600:])
        return ir

    with cf.ThreadPoolExecutor() as ex:
        a, b, c = ex.submit(build_engine, log), ex.submit(irs), ex.submit(build_native, natf, log)
        c.result(), a.result()
        ir = b.result()
    build_s = time.time() - T0
    say("built in %.1f s" % build_s)

    total_budget = (620 if tier == "quick" else 6 * 3600) - build_s
    per_feat = {}
    feats = [f for f in feats if f in ir]
    for f in feats:
        fj = [(e, p, s) for (ff, e, p, s) in jobs_all if ff == f]
        out = tempfile.mkdtemp(prefix="symex-", dir=BUILD)
        t = time.time()
        share = total_budget * max(0.15, len(fj) / max(1, len(jobs_all))) if len(feats) > 1 else total_budget
        rc, err = run_engine(ir[f][0], fj, out, share, only, log)
        if rc not in (0, 4):
            print(err)
            raise BuildError("engine failed (%d)" % rc)
        if rc == 4:
            notes.append("an engine worker ended early; its part of the exploration is missing (features %s)" % f)
        per_feat[f] = collect(out, fj)
        shutil.rmtree(out, ignore_errors=True)
        say("features %s: %d jobs explored in %.1f s" % (f, len(fj), time.time() - t))

    # confirmation of counterexamples against the real build
    groups = {}
    for f in feats:
        for j in per_feat[f]:
            for v in j["violations"]:
                if v["kind"] == "check" and only and not any(o in v["what"] for o in only):
                    continue
                groups.setdefault((v["kind"], v["what"], v["at"] if v["kind"] != "check" else ""), []).append((f, j, v))
    confirmed, dubious = [], []
    for key, vs in sorted(groups.items()):
        if len(confirmed) >= 8:
            break
        vs.sort(key=lambda x: len(x[2]["input"]))
        verdict = False
        for f, j, v in vs[:3]:
            verdict, text = confirm(f, j, v, log)
            if verdict:
                confirmed.append((f, j, v, text))
                break
        if verdict is False and vs[0][0] == "S":
            notes.append("only with ideal cryptography, not confirmed: %s %s in %s %s: %s" % (key[0], key[1], vs[0][1]["entry"], vs[0][1]["params"], text[:300]))
        elif verdict is False:
            dubious.append((vs[0], text))
        elif verdict is None:
            notes.append("not confirmed: %s %s in %s %s: %s" % (key[0], key[1], vs[0][1]["entry"], vs[0][1]["params"], text))

    # inputs of explored paths, run natively: engine and reality have to agree
    samples = []
    for f in feats:
        for j in per_feat[f]:
            bad = {v["input"] for v in j["violations"]}
            for s in j["samples"]:
                if s not in bad:
                    samples.append((f, j, s))
    rng.shuffle(samples)
    first = {}
    for x in samples:
        first.setdefault((x[0], x[1]["entry"]), x)
    chosen = list(first.values()) + samples[: 150 if tier == "quick" else 1000]
    validated = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for (f, j, s), (st, text) in zip(chosen, ex.map(lambda x: replay(x[0], x[1]["entry"], x[1]["params"], x[2]), chosen)):
            if st == "held":
                validated += 1
            elif st in ("check", "crash", "timeout"):
                m = re.search(r"check failed: (.*)", text)
                if st == "check" and ((only and not (m and any(o in m.group(1) for o in only))) or j["violations"]):
                    continue
                if j["violations"]:
                    continue
                # the engine said that this input is fine; reality disagrees: report what reality says
                confirmed.append((f, j, dict(kind="native " + st, what=m.group(1) if m else st, at="", input=s, trace=[]), text))
            else:
                notes.append("sample of %s %s: %s" % (j["entry"], j["params"], st))

    # known findings, each identified by one input
    for k in known:
        if k.get("entry"):
            st, text = replay(k["features"], k["entry"], k["params"], k["input"])
            if st in ("check", "crash", "timeout"):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    alljobs = [(f, j) for f in feats for j in per_feat[f]]
    paths = sum(j["paths"] for _, j in alljobs)
    incomplete = [dict(features=f, entry=j["entry"], params=j["params"], unexplored=j["incomplete"], unknown=j["unknown"], errors=j["errors"])
                  for f, j in alljobs if j["incomplete"] or j["unknown"] or j["errors"] or not j["parts"]]
    covers, checks = {}, {}
    for _, j in alljobs:
        for k, n in j["covers"].items():
            covers[j["entry"] + ": " + k] = covers.get(j["entry"] + ": " + k, 0) + n
        for k, n in j["checks"].items():
            checks[k] = checks.get(k, 0) + n
    mine = sorted({x for _, j in alljobs for x in j["funcs"] if "9maybe_dns" in x} | {x for f in feats for x in ir[f][1]})
    libf = sorted({x for _, j in alljobs for x in j["funcs"] if "9maybe_dns" not in x and "7harness" not in x})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(confirmed),
              assumptions=planmod.ASSUMPTIONS + planmod.EXTRA.get(prop, []),
              coverage=dict(
                  states=paths, transitions=sum(j["forks"] for _, j in alljobs), traces_validated_against_impl=validated,
                  samples=[dict(features=f, entry=j["entry"], params=j["params"], input=s) for f, j, s in chosen[:8]],
                  exhaustive=not incomplete and not notes,
                  explanation="symbolic execution of the LLVM IR of /repo's crate; states: execution paths explored to their end, transitions: branches decided both ways; every path stands for all inputs that satisfy its path condition, and every assertion on it was decided for all of them",
                  jobs=len(alljobs), jobs_complete=len(alljobs) - len(incomplete), instructions=sum(j["steps"] for _, j in alljobs),
                  longest_path=max([j["maxsteps"] for _, j in alljobs] or [0]), infeasible_paths=sum(j["killed"] for _, j in alljobs),
                  assertions_decided=sum(checks.values()), assertions=checks, reached=covers,
                  queries=sum(j["queries"] for _, j in alljobs), sat=sum(j["sat"] for _, j in alljobs), unsat=sum(j["unsat"] for _, j in alljobs),
                  unknown=sum(j["unknown"] for _, j in alljobs), queries_answered_from_cache=sum(j["cached"] + j["modelhit"] for _, j in alljobs),
                  solver_s=round(sum(j["solver_s"] for _, j in alljobs), 2), longest_query_s=round(max([j["max_query_s"] for _, j in alljobs] or [0]), 3),
                  build_s=round(build_s, 1),
                  functions_encoded=own(mine), library_functions_encoded=len(libf),
                  bounds=dict(text=planmod.BOUNDS.get(prop, ""), step_limit=STEP_LIMIT, rlimit_per_query=RLIMIT,
                              jobs=["%s %s(%s)" % (f, j["entry"], ",".join(map(str, j["params"]))) for f, j in alljobs]),
                  incomplete=incomplete[:200], notes=notes))
    with open(os.path.join(EVID, prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    say("%d paths, %d assertions, %d queries (%.1f s solver), %d/%d jobs complete, %d samples agree natively" % (
        paths, sum(checks.values()), ev["coverage"]["queries"], ev["coverage"]["solver_s"], len(alljobs) - len(incomplete), len(alljobs), validated))
    for x in incomplete[:10]:
        say("incomplete:", x)
    for n in notes[:10]:
        say("note:", n)
    rc = 0
    for i, (f, j, v, text) in enumerate(confirmed):
        path = os.path.join(EVID, "replays", "%s-%d.json" % (prop, i))
        json.dump(dict(property=prop, features=f, entry=j["entry"], params=j["params"], input=v["input"], kind=v["kind"], what=v["what"],
                       at=demangle([v["at"]])[0] if v["at"] else "", trace=demangle(v["trace"]) if v["trace"] else [], native=text,
                       how="python3 /verif/check.py --replay " + path), open(path, "w"), indent=1)
        say("%s: %s [%s %s] input %s" % (v["kind"], v["what"], j["entry"], j["params"], v["input"][:200]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if rc == 0 and dubious:
        for (f, j, v), text in dubious:
            say("NOT REPRODUCED: %s %s at %s [%s %s] input %s: %s" % (v["kind"], v["what"], v["at"], j["entry"], j["params"], v["input"], text))
        return 2
    if rc == 0 and paths == 0:
        say("no path explored")
        return 2
    return rc


def main():
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        log = os.path.join(BUILD, "log-setup.txt")
        open(log, "w").close()
        with cf.ThreadPoolExecutor() as ex:
            a = ex.submit(build_engine, log)
            b = ex.submit(lambda: [irbuild.build_ir(f, FEATS[f], ["h_any"] if f != "S" else ["h_ds"], log) for f in planmod.SETS])
            c = ex.submit(build_native, planmod.SETS, log)
            a.result(), b.result(), c.result()
        say("setup done")
        return 0
    if sys.argv[1] == "--replay":
        j = json.load(open(sys.argv[2]))
        build_native([j["features"]], "/dev/null")
        st, text = replay(j["features"], j["entry"], j["params"], j["input"])
        print(st, text)
        return 0 if st == "held" else 1
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(sys.argv[1], tier)
    except BuildError as e:
        print("check error:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
