#!/usr/bin/env python3-vt
"""check.py <property> : decides one property by symbolic execution of the library's LLVM IR.

exit 0  every assertion was discharged for all values within the stated bounds
exit 1  a counterexample was found and reproduced natively (VIOLATION line on stdout)
exit 2  anything else (build failure, solver gave up, vacuous harness, counterexample not reproduced)

check.py --replay <file> re-runs a counterexample natively, check.py --setup warms the build caches.
"""
import json
import os
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import build
import jobs
import plan
import pool
from ll import Module

MODS = {}


def work(job):
    return jobs.run(MODS[job["profile"]], job)


def native_kind(profile):
    return ("rdev" if profile.endswith("dev") else "rrel"), profile.startswith("simd")


class Native:
    """replay binaries, built on demand"""

    def __init__(self):
        self.bins = {}
        self.lock = threading.Lock()

    def get(self, kind, simd):
        with self.lock:
            k = (kind, simd)
            if k not in self.bins:
                self.bins[k] = build.native(kind, simd)
            return self.bins[k]

    def run(self, kind, simd, harness, path, timeout=120):
        b = self.get(kind, simd)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=77:allocator_may_return_null=1"
        rc, out, err = build.call([b, harness, path], timeout, env=env)
        return ("timeout" if rc is None else rc), out + err


def write_env(path, pid, r, env, note):
    with open(path, "w") as f:
        f.write("# property %s harness %s profile %s\n# %s\n# run: python3-vt /verif/check.py --replay %s\n" % (pid, r["harness"], r["profile"], note.replace("\n", " "), path))
        for k, v in sorted((r.get("params") or {}).items()):
            f.write("p!%d %d\n" % (int(k), v))
        for k, v in sorted(env.items()):
            if k.split("!")[0] not in ("s", "n", "c", "w", "a"):
                continue
            if isinstance(v, tuple):
                f.write("%s[] %d %s\n" % (k, v[0], " ".join("%d:%d" % x for x in sorted(v[1].items()))))
            else:
                f.write("%s %d\n" % (k, v))


def reproduce(nat, r, path):
    """does the counterexample fail natively?  returns (bool, description)"""
    v = r["violation"]
    kind, simd = native_kind(r["profile"])
    tries = []
    order = [(kind, simd)]
    if v["kind"] == "ub":
        order = [("asan", simd), ("rdev", simd), (kind, simd)]
    elif v["kind"] == "assert" or v["kind"] == "panic":
        order = [(kind, simd), ("asan", simd)]
    for k, s in order:
        rc, out = nat.run(k, s, r["harness"], path, 20 if v["kind"] == "hang" else 120)
        last = out.strip().splitlines()[-3:]
        tries.append("%s: %s %s" % (k, rc, last))
        if rc == "timeout":
            return True, "%s build: does not terminate" % k
        if rc == 0:
            continue
        if rc == 12 or rc == 13:
            continue
        if v["kind"] == "ub" and k == "rdev":
            # a debug build may legitimately panic where a release build misbehaves
            if "unsafe precondition" not in out and rc not in (-6, -11, -4):
                continue
        if rc == 11 or rc == 77 or (isinstance(rc, int) and rc < 0) or rc == 101 or rc == 134:
            msg = [l for l in out.splitlines() if "REPLAY" in l or "ERROR: AddressSanitizer" in l or "unsafe precondition" in l or "panicked" in l]
            return True, "%s build: exit %s %s" % (k, rc, "; ".join(msg[:3]))
    return False, " | ".join(tries)


def load_known():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING:"):
                out.append(l.strip())
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    spec = plan.PROPS[pid]
    js = plan.jobs(pid, tier)
    roots = sorted({j["harness"] for j in js})
    profs = sorted({j["profile"] for j in js})
    budget = 840 if tier == "quick" else 3000
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    build.stage()
    # IR for every profile, in parallel
    paths, errs = {}, []

    def b(p):
        try:
            paths[p] = build.ir(p, [r for r in roots if any(j["harness"] == r and j["profile"] == p for j in js)], pid, std=spec.get("std", False))
        except Exception as x:
            errs.append(str(x))
    ts = [threading.Thread(target=b, args=(p,)) for p in profs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        print("ERROR: " + errs[0])
        return 2
    t_build = time.time() - t0
    known = set()
    for p in profs:
        MODS[p] = Module.load(paths[p])
    nat = Native()
    warm = threading.Thread(target=lambda: [nat_try(nat, *native_kind(p)) for p in profs])
    warm.start()
    for j in js:
        j.setdefault("limit_s", max(60, budget - (time.time() - t0)))
        if tier == "thorough":
            j.setdefault("cross", 25)
    results, confirmed, unconfirmed, bad = [], None, [], []
    workers = pool.Pool(work, js, plan.WORKERS)
    try:
        for _ in range(len(js)):
            got = workers.next(max(1, budget - (time.time() - t0)))
            if got is None:
                bad.append("time limit: %d of %d jobs finished" % (len(results), len(js)))
                break
            j, r = got
            if isinstance(r, str):
                bad.append("%s %s %s: %s" % (j["harness"], j["profile"], j.get("params"), r))
                continue
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                print("# %s %s %s %s %s %.1fs paths=%d steps=%d q=%d qt=%.1f %s" % (r["harness"], r["profile"], r["params"], r["choose"], r["status"], r["wall"], r["paths"], r["steps"], r["solver"]["queries"], r["solver"]["time"], r["detail"]), flush=True)
            if r["status"] == "violation":
                v = r["violation"]
                path = os.path.join(ROOT, "replays", "%s-%s-%s.txt" % (pid, r["harness"], r["profile"]))
                write_env(path, pid, r, v["env"], "%s %s in %s" % (v["kind"], v["id"], v["where"]))
                warm.join()
                ok, how = reproduce(nat, r, path)
                if ok:
                    confirmed = (r, path, how)
                    break
                unconfirmed.append((r, how))
            elif r["status"] != "ok":
                bad.append("%s %s %s: %s %s" % (r["harness"], r["profile"], r["params"], r["status"], r["detail"]))
    finally:
        workers.stop()
    # vacuity: everything the harness can check must have been reached
    vac, validated, samples = [], 0, []
    if not confirmed and not bad and not unconfirmed:
        for h in roots:
            for p in {j["profile"] for j in js if j["harness"] == h}:
                rs = [r for r in results if r["harness"] == h and r["profile"] == p]
                a, m = jobs.const_ids(MODS[p], "h_" + h)
                ha = set().union(*[set(r["asserts"]) for r in rs])
                hm = set().union(*[{i for i, ok in r["reach"].items() if ok} for r in rs])
                optional = set(spec.get("optional", {}).get(h, ()))
                if not m or not a:
                    vac.append("%s %s: nothing to check" % (h, p))
                if a - ha - optional:
                    vac.append("%s %s: assertions never evaluated: %s" % (h, p, sorted(a - ha - optional)))
                if m - hm:
                    vac.append("%s %s: unreachable marks: %s" % (h, p, sorted(m - hm)))
        # the witnesses of reachability must run cleanly on the real code
        warm.join()
        d = os.path.join(ROOT, "build", "witness")
        os.makedirs(d, exist_ok=True)
        todo, seen = [], {}
        for r in results:
            for i, env in sorted(r["witnesses"].items()):
                if any(k.startswith("n!") and v > 1 << 28 for k, v in env.items()):
                    continue
                k = (r["harness"], r["profile"], i)
                if seen.get(k, 0) >= 3:
                    continue
                seen[k] = seen.get(k, 0) + 1
                path = os.path.join(d, "%s-%s-%s-%d-%d.txt" % (pid, r["harness"], r["profile"], i, seen[k]))
                write_env(path, pid, r, env, "reachability witness %d" % i)
                todo.append((r, i, env, path))
        for r, i, env, path in todo:
            kind, simd = native_kind(r["profile"])
            try:
                rc, out = nat.run(kind, simd, r["harness"], path)
            except build.BuildError as x:
                bad.append("native build: %s" % x)
                break
            if rc == 0 and "REPLAY-OK" in out:
                validated += 1
                if len(samples) < 6:
                    samples.append({"harness": r["harness"], "profile": r["profile"], "params": r["params"], "values": {k: (v if not isinstance(v, tuple) else "array") for k, v in list(env.items())[:12]}})
            elif rc == 12 or rc == 13:
                bad.append("witness %s not feasible natively: %s" % (path, out.strip()[-200:]))
            else:
                keep = os.path.join(ROOT, "replays", os.path.basename(path))
                write_env(keep, pid, r, env, "witness failed natively")
                confirmed = (dict(r, violation={"kind": "native", "id": "witness", "where": r["harness"]}), keep, "exit %s %s" % (rc, out.strip()[-200:]))
                break
    write_evidence(pid, tier, seed, spec, js, results, t0, t_build, confirmed, validated, samples, bad + vac)
    for l in load_known():
        if ("property=%s " % pid) in l:
            print(l)
    if confirmed:
        r, path, how = confirmed
        v = r["violation"]
        print("counterexample: harness %s, profile %s, %s %s" % (r["harness"], r["profile"], v["kind"], v["id"]))
        print("  in %s" % v["where"])
        print("  native: %s" % how)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for r, how in unconfirmed:
        v = r["violation"]
        print("ERROR: counterexample not reproduced natively: %s %s %s %s in %s; %s" % (r["harness"], r["profile"], v["kind"], v["id"], v["where"], how))
    for x in bad + vac:
        print("ERROR: " + x)
    if unconfirmed or bad or vac:
        return 2
    n = sum(sum(v) for r in results for v in r["asserts"].values())
    print("%s held: %d jobs, %d assertions, %d solver queries, %.0f s" % (pid, len(results), n, sum(r["solver"]["queries"] for r in results), time.time() - t0))
    return 0


def nat_try(nat, kind, simd):
    try:
        nat.get(kind, simd)
    except Exception:
        pass


def write_evidence(pid, tier, seed, spec, js, results, t0, t_build, confirmed, validated, samples, problems):
    def tot(k):
        return sum(r[k] for r in results)

    def sol(k):
        return sum(r["solver"][k] for r in results)
    fns = {}
    for r in results:
        for f, bl in r["blocks"].items():
            fns.setdefault(f, set()).update(bl)
    import sym
    lib = {}
    for f, bl in fns.items():
        d = sym.demangle(f)
        if "succinct_neo" in d:
            lib[d] = lib.get(d, 0) + len(bl)
    proved = sum(v[0] for r in results for v in r["asserts"].values())
    trivial = sum(v[1] for r in results for v in r["asserts"].values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": len(results) + tot("forks") + tot("merges"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "jobs": len(results), "jobs_planned": len(js),
            "paths_finished": tot("paths"),
            "assertions_by_solver": proved, "assertions_by_simplification": trivial,
            "memory_checks_symbolic": tot("memchecks"), "panicking_paths": tot("panics"),
            "queries": sol("queries"), "queries_unsat": sol("unsat"), "queries_sat": sol("sat"), "queries_unknown": sol("unknown"),
            "queries_answered_from_cache": sol("cache_hits") + sol("model_hits"),
            "queries_cross_checked_by_cvc5": sol("cross"),
            "solver_s": round(sol("time"), 2), "ir_build_s": round(t_build, 2),
            "harnesses": sorted({(r["harness"] + "/" + r["profile"]) for r in results}),
            "functions_encoded": lib,
            "bounds": spec["bounds"],
            "problems": problems,
            "exhaustive": not problems and not confirmed and len(results) == len(js),
        },
        "assumptions": plan.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    h = p = None
    for l in open(path):
        if l.startswith("# property"):
            t = l.split()
            h, p = t[4], t[6]
    nat = Native()
    kind, simd = native_kind(p)
    rcs = []
    for k in (kind, "asan"):
        rc, out = nat.run(k, simd, h, path)
        print("--- %s build: exit %s\n%s" % (k, rc, out.strip()[-1500:]))
        rcs.append(rc)
    return 0 if all(r == 0 for r in rcs) else 1


def setup():
    build.stage()
    err = []

    def g(f, *a):
        try:
            f(*a)
        except Exception as x:
            err.append(str(x))
    ts = [threading.Thread(target=g, args=(build.ir, p, [], "warm")) for p in build.PROFILES]
    ts += [threading.Thread(target=g, args=(build.native, k, s)) for k, s in (("rrel", False), ("rdev", False), ("asan", False), ("rrel", True), ("rdev", True))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    build.std_bitcode()
    for x in err:
        print("ERROR: " + x)
    return 2 if err else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            rc = replay(sys.argv[2])
        elif sys.argv[1] == "--setup":
            rc = setup()
        else:
            rc = main(sys.argv[1])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
