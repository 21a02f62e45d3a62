#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  run.py check  P04 [--tier quick|thorough]     decide one property
  run.py replay FILE                            re-run one recorded violation
  run.py setup                                  sanity check of the toolchain
  run.py all                                    every check, summary only
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, BASE_FLAGS, COMPILER
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
FINDINGS = os.path.join(HERE, "known_findings.json")
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:abort_on_error=0:exitcode=77:print_legend=0",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77", "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1"}


class CheckError(Exception):
    pass


def unit_name(u):
    return "%s.%s" % (os.path.splitext(os.path.basename(u["src"]))[0], u["tag"])


def compile_unit(prop, u, outdir):
    src = os.path.join(HERE, "props", u["src"])
    exe = os.path.join(outdir, unit_name(u))
    cmd = [u.get("cxx", COMPILER)] + u.get("flags", BASE_FLAGS) + ["-D%s" % d for d in u["defs"]] + \
          ["-I" + os.path.join(REPO, "include"), src, "-o", exe] + u.get("libs", ["-lpthread"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    if r.returncode != 0:
        errs = [l[:400] for l in r.stdout.splitlines() if "error" in l or "required from" in l][:10]
        raise CheckError("cannot build %s:\n  %s" % (unit_name(u), "\n  ".join(errs or r.stdout.splitlines()[-5:])))
    return exe


def run_exe(exe, u, tier, seed, outdir, extra=(), timeout=800):
    out = os.path.join(outdir, unit_name(u) + ".json")
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ); env.update(SAN_ENV)
    cmd = u.get("wrap", []) + [exe, "--seed", str(seed), "--tier", tier, "--out", out] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, None, "timeout"
    if r.returncode in (0, 10) and os.path.exists(out):
        return r.returncode, json.load(open(out)), r.stdout
    return r.returncode, None, r.stdout


def death(text):
    """classify the death of a harness process"""
    m = re.findall(r"DEAD why=(\S+) config=(\S+) case=(-?\d+)", text)
    if not m:
        return None
    why, config, case = m[-1]
    det = ""
    k = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if k: det = "asan:" + k.group(1)
    k = re.search(r"runtime error: (.*)", text)
    if k: det = "ubsan:" + re.sub(r"[^A-Za-z ]+", " ", k.group(1))[:60].strip().replace(" ", "-")
    k = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", text)
    if k: det = "tsan:" + k.group(1).strip().replace(" ", "-")
    k = re.search(r"Error: (attempt[^\n]*|comparison[^\n]*|elements[^\n]*)", text)
    if k: det = "debug-mode:" + k.group(1)[:60].strip().replace(" ", "-")
    if "hard rss limit exhausted" in text or "hard_rss_limit" in text: det = "memory-exhausted"
    fr = [l.strip()[:220] for l in text.splitlines() if re.match(r"\s+#\d+ ", l) and "boost/icl" in l][:4]
    head = [l.strip()[:300] for l in text.splitlines() if "runtime error" in l or "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l or l.startswith("Error:")][:2]
    trace = [l[6:] for l in text.splitlines() if l.startswith("TRACE ")][-40:]
    return {"config": config, "case": int(case), "tag": "dead:" + (det or why), "msg": " / ".join(head + fr) or why, "trace": trace}


def known(prop, f, findings):
    for e in findings:
        if e.get("status") == "known" and e["property"] == prop and re.fullmatch(e["config"], f["config"]) and re.fullmatch(e["tag"], f["tag"]) \
                and re.search(e.get("msg", ""), f["msg"]) :
            return e
    return None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    units = spec["units"] + (spec.get("thorough_units", []) if tier == "thorough" else [])
    outdir = os.path.join(BUILD, prop + "." + tier)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    findings = json.load(open(FINDINGS))["findings"]
    evid = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    if os.path.exists(evid):
        os.unlink(evid)

    def work(u):
        exe = compile_unit(prop, u, outdir)
        t1 = time.time()
        fails, deaths, skips, data = [], 0, [], None
        while True:
            extra = [x for s in skips for x in ("--skip", s)]
            rc, data, text = run_exe(exe, u, tier, seed, outdir, extra)
            if data is not None:
                fails += data["failures"]; break
            if text == "timeout":
                raise CheckError("%s ran out of time" % unit_name(u))
            d = death(text)
            if d is None:
                raise CheckError("%s ended with %s and no verdict: %s" % (unit_name(u), rc, text[-600:]))
            # a death counts when the single case reproduces it
            rep = None
            for _ in range(2):
                rc2, data2, text2 = run_exe(exe, u, tier, seed, outdir, ["--config", d["config"], "--case", str(d["case"]), "--live"])
                if data2 is None and text2 != "timeout" and death(text2):
                    rep = death(text2); break
                if data2 is not None and data2["failures"]:
                    rep = data2["failures"][0]; break
            if rep is None and d["tag"].startswith(("dead:asan", "dead:ubsan", "dead:tsan", "dead:debug")):
                rep = d      # sanitizer verdicts stand on their own
            if rep is None:
                d2 = skips.count(d["config"] + "#" + str(d["case"]))
                if d2 or len(skips) > 20:
                    raise CheckError("%s died without reproducing: %s" % (unit_name(u), text[-600:]))
            else:
                fails.append(rep)
            deaths += 1
            skips.append(d["config"] + "#" + str(d["case"]))
            if rep is not None and known(prop, rep, findings) is None or deaths > 60:
                break
        for f in fails:
            f["unit"] = unit_name(u)
        return u, data, fails, time.time() - t1

    results, errors = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(work, u) for u in units]
        for f in cf.as_completed(futs):
            try:
                results.append(f.result())
            except CheckError as e:
                errors.append(str(e))
            except subprocess.TimeoutExpired as e:
                errors.append("timeout: %s" % (e.cmd[:1],))
    results.sort(key=lambda r: unit_name(r[0]))
    ev = dn = ob = 0; configs = {}; counters = {}; samples = []; fails = []
    for u, data, fl, dt in results:
        fails += fl
        if data is None:
            continue
        ev += data["evaluations"]; dn += data["distinct_nontrivial"]; ob += data["observations"]
        for k, v in data["configs"].items():
            c = configs.setdefault(k, [0, 0]); c[0] += v[0]; c[1] += v[1]
        for k, v in data["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max ") else counters.get(k, 0) + v
        samples += data["samples"][:1]
    new, old = [], {}
    for f in fails:
        e = known(prop, f, findings)
        if e is None: new.append(f)
        else: old.setdefault(e["id"], e)
    for e in old.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for e in findings:
        if e.get("status") == "known" and e["property"] == prop and e["id"] not in old and not errors:
            print("note: known finding %s was not met in this run" % e["id"])
    new.sort(key=lambda f: (len(f["trace"]), f["config"]))
    printed = set()
    for f in new:
        if f["tag"] in printed or len(printed) >= 12:
            continue
        printed.add(f["tag"])
        os.makedirs(REPLAYS, exist_ok=True)
        u = next(x for x in units if unit_name(x) == f["unit"])
        rec = {"property": prop, "tier": tier, "seed": seed, "unit": u, "config": f["config"], "case": f["case"], "tag": f["tag"], "msg": f["msg"], "trace": f["trace"],
               "how": "python3 run.py replay <this file>"}
        name = os.path.join(REPLAYS, "%s-%s.json" % (prop, hashlib.sha1(json.dumps([f["config"], f["case"], f["tag"]]).encode()).hexdigest()[:10]))
        json.dump(rec, open(name, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(name, HERE)))
        print("  [%s #%s] %s: %s" % (f["config"], f["case"], f["tag"], f["msg"][:500]))
        for l in f["trace"][-4:]:
            print("      " + l[:300])
    for e in errors:
        print("CHECK-ERROR " + e[:3000])
    cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": spec["rule"], "samples": samples[:8] or ["none"], "oracle_observations": ob,
           "monitored_configurations": {k: {"cases": v[0], "distinct_nontrivial": v[1]} for k, v in sorted(configs.items())},
           "monitor_counters": counters, "programs_built": len(results)}
    if spec.get("exhaustive"):
        cov["exhaustive"] = False if errors else True
        cov["exhaustive_space"] = spec["exhaustive"]
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec.get("assumptions", []),
               "wall_s": round(time.time() - t0, 1), "violations": len(new)}, open(evid, "w"), indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    print("%s %s: %d cases, %d distinct non-trivial, %d oracle observations, %d violations, %d known findings, %.1f s" %
          (prop, tier, ev, dn, ob, len(new), len(old), time.time() - t0))
    if new:
        return 1
    if errors or not ev:
        return 2
    if not dn:
        print("CHECK-ERROR nothing non-trivial was observed"); return 2
    return 0


def replay(path):
    rec = json.load(open(path)); outdir = os.path.join(BUILD, "replay")
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    exe = compile_unit(rec["property"], rec["unit"], outdir)
    env = dict(os.environ); env.update(SAN_ENV)
    r = subprocess.run(rec["unit"].get("wrap", []) + [exe, "--seed", str(rec["seed"]), "--tier", rec["tier"], "--config", rec["config"], "--case", str(rec["case"]), "--live",
                        "--out", os.path.join(outdir, "o.json")], env=env)
    if os.path.exists(os.path.join(outdir, "o.json")):
        for f in json.load(open(os.path.join(outdir, "o.json")))["failures"]:
            print("reproduced: %s: %s" % (f["tag"], f["msg"]))
    return 1 if r.returncode else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for t in {COMPILER} | {u.get("cxx", COMPILER) for c in CHECKS.values() for u in c["units"]}:
            if not shutil.which(t):
                print("missing " + t); return 2
        os.makedirs(BUILD, exist_ok=True); return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if a[:1] == ["all"]:
        bad = 0
        for p in CHECKS:
            r = check(p, tier); bad |= r; print(p, "exit", r, flush=True)
        return bad
    return check(a[1], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR " + str(e)); sys.exit(2)
