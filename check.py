#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

  check.py ID [--tier quick|thorough]

Builds /repo's current working tree together with the harness of the property,
takes the LLVM IR the compiler produces for it, lets symx (symx/) execute that
IR symbolically and exhaustively within the bounds of the harness, replays every
counterexample and a sample of the explored paths against the natively compiled
binary, and writes evidence/ID.json.

exit 0: held; exit 1: VIOLATION line printed; exit 2: no verdict.
"""
import json, os, subprocess, sys, time, shutil, re
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(ROOT, "target")
sys.path.insert(0, ROOT)
import props

VERSION_NOTE = "symx (this repository) over rustc's LLVM IR, z3 via libz3"


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            e.pop(k)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def run(cmd, cwd, e, what, timeout=800):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die(what + " timed out")
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("%s failed (%d)" % (what, p.returncode))
    return p.stdout


def build_symx():
    run(["cargo", "build", "--offline", "--release"], os.path.join(ROOT, "symx"),
        env(CARGO_TARGET_DIR=os.path.join(TGT, "symx")), "building symx")
    return os.path.join(TGT, "symx", "release", "symx")


def build_harness(name):
    d = os.path.join(TGT, "h")
    ll = os.path.join(d, name + ".ll")
    os.makedirs(d, exist_ok=True)
    if os.path.exists(ll):
        os.remove(ll)
    # cargo does not know about the extra output: make it link again
    stamp = os.path.join(ROOT, "harness", "src", "bin", name + ".rs")
    for f in (os.path.join(d, "release", name),):
        if os.path.exists(f):
            os.remove(f)
    e = env(CARGO_TARGET_DIR=d, RUSTFLAGS="--cfg bongo_verif -Awarnings")
    run(["cargo", "rustc", "--offline", "--release", "--bin", name, "--", "--emit=llvm-ir=" + ll + ",link"],
        os.path.join(ROOT, "harness"), e, "building the harness against " + REPO)
    if not os.path.exists(ll):
        # unchanged since the last build: the compiler was not run
        os.utime(stamp)
        run(["cargo", "rustc", "--offline", "--release", "--bin", name, "--", "--emit=llvm-ir=" + ll + ",link"],
            os.path.join(ROOT, "harness"), e, "building the harness against " + REPO)
    return ll, os.path.join(d, "release", name)


def native(binary, entry, values, timeout=20):
    e = dict(os.environ)
    e["SYMX_ENTRY"] = entry
    e["SYMX_VALUES"] = ",".join(map(str, values))
    try:
        p = subprocess.run([binary], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           errors="replace")
    except subprocess.TimeoutExpired:
        return {"status": "violation:hang", "rc": None, "observed": None, "err": "no answer within %d s" % timeout}
    r = {"status": None, "rc": p.returncode, "observed": None, "err": p.stderr[-1500:]}
    for l in p.stdout.splitlines():
        if l.startswith("status "):
            r["status"] = l[7:]
        elif l.startswith("observed"):
            r["observed"] = [int(x) for x in l[8:].split()]
        elif l.startswith("used "):
            r["used"] = int(l[5:])
        elif l.startswith("domain_errors ") and l.split()[1] != "0":
            r["status"] = "domain-error"
    if r["status"] is None:
        r["status"] = "violation:abort" if p.returncode < 0 or p.returncode == 134 else "error"
    return r


def native_stress(binary, entry, values, tries, timeout):
    """Schedule-dependent counterexample: run the real threads repeatedly."""
    def one(_):
        return native(binary, entry, values, timeout)
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(one, i) for i in range(tries)]
        for f in as_completed(fs):
            r = f.result()
            if r["status"].startswith("violation"):
                for g in fs:
                    g.cancel()
                return r
    return r


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def solver_cross_check(dumps, budget):
    """Put sampled queries to the other installed solvers."""
    res = {"asked": 0, "agree": 0, "solvers": [], "unknown": 0}
    import tempfile
    solvers = [("z3-new", ["z3-new", "-T:20"]), ("cvc5", ["cvc5", "--tlimit=20000"])]
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="symxq")
    try:
        for i, q in enumerate(dumps):
            if time.time() - t0 > budget:
                break
            f = os.path.join(d, "q%d.smt2" % i)
            open(f, "w").write("(set-logic QF_BV)\n" + q["smt"] + "\n(check-sat)\n")
            for n, c in solvers:
                if not shutil.which(c[0]):
                    continue
                p = subprocess.run(c + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                out = p.stdout.split()
                res["asked"] += 1
                if n not in res["solvers"]:
                    res["solvers"].append(n)
                if "(error" in p.stdout or not out:
                    res["unknown"] += 1
                elif (out[0] == "sat") == q["sat"] and out[0] in ("sat", "unsat"):
                    res["agree"] += 1
                elif out[0] in ("sat", "unsat"):
                    die("solvers disagree on a query: z3 says %s, %s says %s (%s)" % ("sat" if q["sat"] else "unsat", n, out[0], f))
                else:
                    res["unknown"] += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--only":
            only = args[i + 1]
            i += 1
        elif args[i] == "--try":
            # entries of the harness that are not registered
            P = dict(props.PROPS[pid], entries=[{"name": n, "bounds": "tried", **json.loads(os.environ.get("TRY", "{}"))} for n in args[i + 1].split(",")])
            props.PROPS[pid] = P
            i += 1
        elif args[i] == "--keep":
            keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    symx = build_symx()
    ll, binary = build_harness(P["bin"])
    build_s = time.time() - t0
    tot = dict(paths=0, paths_done=0, paths_expected_panic=0, paths_assume_false=0, instructions=0, decisions=0,
               queries=0, sat=0, unsat=0, cache_hits=0, solver_s=0.0)
    runs, samples, functions, bounds = [], [], {}, []
    validated = 0
    viol, kf_hit = [], []
    problems = []
    findings = known_findings(pid)
    cross = None
    deadline = props.DEADLINE[tier] + t0
    for en in P["entries"]:
        if en.get("tier", "both") not in ("both", tier):
            continue
        if only and en["name"] != only:
            continue
        wall = max(20, min(en.get("wall", 600), deadline - time.time()))
        out = os.path.join(TGT, "h", P["bin"] + "." + en["name"] + ".json")
        cmd = [symx, "--ll", ll, "--entry", "symx_main_" + en["name"], "--out", out, "--wall", str(int(wall)), "--seed", str(seed),
               "--samples", str(en.get("samples", 150)), "--max-viol", str(en.get("max_viol", 4 + len(findings))),
               "--dumps", "3" if tier == "quick" else "40"]
        for k in ("max-instr", "max-depth", "preemptions", "heap-mb"):
            if k in en:
                cmd += ["--" + k, str(en[k])]
        t1 = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-4000:])
            problems.append("%s: engine failed (%d)" % (en["name"], p.returncode))
            continue
        r = json.load(open(out))
        for k in tot:
            tot[k] += r[k]
        print("%s: %d paths, %d decisions, %d queries (%.1fs solver), %.1fs wall, complete=%s, covers=%s" % (
            en["name"], r["paths"], r["decisions"], r["queries"], r["solver_s"], r["wall_s"], r["complete"], ",".join(r["covers"])))
        for f, v in r["functions"].items():
            if f.startswith(REPO + "/src") or "/im-" in f or "/dot-" in f or "/pretty-" in f or "/unicode-seg" in f:
                k = f if f.startswith(REPO) else re.sub(r"^.*/registry/src/[^/]+/", "", f)
                functions.setdefault(k, set()).update(v)
        threads = en.get("preemptions") is not None
        # the explored paths must be what the compiled code does
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            # (which schedule a native run of threads takes is not ours to say)
            tr = [] if threads and r["violations"] else r["traces"]
            for t, n in zip(tr, ex.map(lambda t: native(binary, en["name"], t["values"], 60), tr)):
                same = n["status"] == t["outcome"] and (threads or (n["observed"] == t["observed"] and n.get("used") == len(t["values"])))
                if same:
                    validated += 1
                else:
                    bad += 1
                    if bad <= 2:
                        problems.append("%s: path %s: symbolic run says %s %s, native run says %s %s" % (
                            en["name"], t["values"], t["outcome"], t["observed"][:20], n["status"], (n["observed"] or [])[:20]))
        for t in r["traces"][:2]:
            samples.append({"entry": en["name"], "inputs": t["values"], "observed": t["observed"][:40], "outcome": t["outcome"]})
        # counterexamples: only what reproduces natively counts
        nv = 0
        for v in r["violations"]:
            if threads and viol:
                break  # one schedule-dependent counterexample is enough
            lim = 20 if v["kind"] in ("limit", "deadlock") else 60
            if threads:
                n = native_stress(binary, en["name"], v["values"], en.get("tries", 200), 10)
            else:
                n = native(binary, en["name"], v["values"], lim)
            ok = n["status"].startswith("violation")
            v["native"] = n
            v["entry"] = en["name"]
            if not ok:
                problems.append("%s: counterexample %s (%s: %s) does not reproduce natively: %s %s" % (
                    en["name"], v["values"], v["kind"], v["msg"], n["status"], n["err"][-300:]))
                continue
            nv += 1
            k = next((k for k in findings if k["entry"] == en["name"] and k["values"] == v["values"]), None)
            if k:
                kf_hit.append((k, v))
            else:
                viol.append(v)
        for e in r["errors"]:
            problems.append("%s: %s" % (en["name"], e))
        if not r["complete"] and not r["violations"] and not r["errors"]:
            problems.append("%s: not finished within %d s (%d paths explored, %d queued)" % (en["name"], wall, r["paths"], r["left"]))
        miss = [c for c in en.get("covers", []) if c not in r["covers"]]
        if miss and r["complete"]:
            problems.append("%s: never reached: %s" % (en["name"], ", ".join(miss)))
        if r["complete"] and r["paths_done"] + r["paths_expected_panic"] == 0 and not r["violations"]:
            problems.append("%s: no path reached the end (vacuous)" % en["name"])
        bounds.append({"entry": en["name"], "bounds": en["bounds"], "complete": r["complete"], "paths": r["paths"],
                       "symbolic_inputs_max": r["max_symbolic_inputs"], "longest_path_instructions": r["max_path_instructions"],
                       "decisions": r["decisions"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"],
                       "solver_s": r["solver_s"], "wall_s": r["wall_s"], "witnesses_reached": r["covers"],
                       "max_query_ms": r["max_query_ms"]})
        solver_version = r["solver"]
        if r["dumps"]:
            c = solver_cross_check(r["dumps"], 10 if tier == "quick" else 120)
            if cross is None:
                cross = c
            else:
                for k in ("asked", "agree", "unknown"):
                    cross[k] += c[k]
        if not keep:
            os.remove(out)
        if viol:
            break
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": not problems and not viol,
            "meaning": "states = distinct feasible path classes executed symbolically to their end; transitions = decisions on symbolic data whose other outcomes were put to the solver (or its cache)",
            "bounds": bounds, "outside_the_bounds": P["outside"],
            "functions_encoded": {k: sorted(v) for k, v in sorted(functions.items())},
            "queries_discharged": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"],
            "answered_from_cache": tot["cache_hits"], "solver_s": round(tot["solver_s"], 3),
            "solver": "z3 " + solver_version if bounds else None, "second_solvers": cross,
            "instructions_executed": tot["instructions"], "build_s": round(build_s, 1),
            "problems": problems,
            "known_findings_seen": [k["what"] for k, _ in kf_hit],
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    seen = set()
    for k, v in kf_hit:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".json")
        json.dump({"property": pid, "how": "SYMX_ENTRY=<entry> SYMX_VALUES=<values> %s" % binary, "violations": viol}, open(path, "w"), indent=1)
        v = viol[0]
        print("counterexample: entry %s, inputs %s" % (v["entry"], v["values"]))
        print("  symbolic: %s: %s" % (v["kind"], v["msg"]))
        print("  native replay: %s\n%s" % (v["native"]["status"], v["native"]["err"].strip()))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        sys.exit(1)
    if problems:
        for x in problems:
            print("PROBLEM: " + x)
        die("no verdict")
    print("OK property=%s tier=%s: %d paths, %d queries, %d native replays, %.1fs" % (
        pid, tier, tot["paths"], tot["queries"], validated, time.time() - t0))


if __name__ == "__main__":
    main()
