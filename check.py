#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Decides one property on /repo's current working tree.

A. Verus discharges the contracts of the functions the property depends on,
   extracted from /repo on this run (see vf.py and contracts/).
B. A bounded search over the real crate looks for a failing input: it gives
   the replayable counterexample when an obligation fails, and stands in
   (labelled bounded) for functions outside the verifier's reach.
"""
import json, os, re, subprocess, sys, threading, time
import vf

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
from plan import PLAN


def sh(cmd, cwd=None, env=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace"), \
        r.stderr.decode(errors="replace")


def build_harness(bin):
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "--bin", bin],
                  cwd=os.path.join(VERIF, "harness"),
                  env={"CARGO_TARGET_DIR": os.path.join(BUILD, "harness")})
    return rc == 0, e


def run_bin(pid, bin, tier, seed):
    t0 = time.time()
    ok, err = build_harness(bin)
    res = {"bin": bin, "build_ok": ok}
    if not ok:
        res["error"] = err[-4000:]
        res["wall_s"] = time.time() - t0
        # does the library itself build?
        rc, o, e = sh(["cargo", "build", "--offline"], cwd=vf.REPO,
                      env={"CARGO_TARGET_DIR": os.path.join(BUILD, "lib")})
        res["lib_ok"] = rc == 0
        return res
    report = os.path.join(BUILD, "report.%s.%d.json" % (pid, os.getpid()))
    exe = os.path.join(BUILD, "harness/release", bin)
    try:
        rc, o, e = sh([exe, pid, tier, str(seed), report],
                      timeout=500 if tier == "quick" else 6 * 3600)
    except subprocess.TimeoutExpired:
        rc, o, e = -99, "", "timed out"
    res["rc"] = rc
    if rc == 0 and os.path.exists(report):
        res.update(json.load(open(report)))
        os.unlink(report)
    else:
        res["crash"] = "exit %s: %s" % (rc, (o + e)[-2000:])
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def part_b(pid, plan, tier, seed, out):
    """runs every search of the property; the first that fails decides"""
    rs = [run_bin(pid, x, tier, seed) for x in plan["bins"]]
    bad = [r for r in rs if r.get("failures")] or \
        [r for r in rs if r.get("crash")] or \
        [r for r in rs if not r["build_ok"]] or rs[:1]
    out.update(bad[0])
    out["build_ok"] = all(r["build_ok"] for r in rs) or bool(
        bad[0].get("failures") or bad[0].get("crash"))
    out["bin"] = bad[0]["bin"]
    out["bins"] = [r["bin"] for r in rs]
    for k in ("evaluations", "distinct", "nontrivial"):
        out[k] = sum(r.get(k) or 0 for r in rs)
    for k in ("parts", "rules", "samples"):
        v = [x for r in rs for x in (r.get(k) or [])] if k != "parts" else \
            [r.get(k) for r in rs]
        out[k] = v
    out["wall_s"] = sum(r["wall_s"] for r in rs)


def part_a(pid, plan, tier, out):
    units = plan.get("units", [])
    vf.build_rsindex()
    results = []

    def go(u):
        try:
            results.append(vf.run_unit(u))
        except vf.Lost as e:
            results.append({"unit": u, "lost": str(e)})
        except Exception as e:      # the composer met text it cannot handle
            results.append({"unit": u, "lost": "%s: %s" % (
                type(e).__name__, e)})
        try:
            r = results[-1]
            if "lost" not in r and not r["fatal"] and plan.get("probe", True):
                p = vf.run_unit(u, probe=True)
                if p["fatal"] and not p["failed"]:
                    raise vf.Lost("probe: " + p["fatal"][:300])
                r["vacuous"] = [f for f in p["functions"]
                                if f not in p["failed"]]
                r["probed"] = len(p["functions"])
        except Exception as e:
            results[-1]["probe_error"] = str(e)
    for u in units:
        go(u)
    out["units"] = results


def known():
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\w+) (.*)", l)
        if m:
            out.append(m.groups())
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    a, b = {}, {}
    # B uses all the cores; the verifier needs one most of the time
    tb = None
    if plan.get("bins"):
        tb = threading.Thread(target=part_b, args=(pid, plan, tier, seed, b))
        tb.start()
    part_a(pid, plan, tier, a)
    if tb:
        tb.join()

    violations = []     # (kind, text)
    undecided, failed, discharged, functions = {}, {}, 0, []
    trusted, dropped, smt, notes = set(), set(), 0, []
    oblig = 0
    for r in a["units"]:
        if "lost" in r:
            undecided["unit " + r["unit"]] = r["lost"]
            continue
        mine = [f for f in r["props"] if pid in r["props"][f]]
        functions += mine
        oblig += r["verified"] + r["errors"]
        discharged += r["verified"]
        smt += r["smt_ms"]
        trusted |= set(r["trusted"])
        dropped |= set(r["dropped"])
        notes += r["assumed"]
        if r["fatal"]:
            undecided["unit " + r["unit"]] = r["fatal"]
        for f in mine:
            if f in r["undecided"]:
                undecided[f] = r["undecided"][f]
            elif f in r["failed"]:
                failed[f] = "\n".join(r["failed"][f])
        for f in r.get("vacuous", []):
            if f in mine:
                undecided[f] = "vacuous: assert(false) verified"
    cases = b.get("failures") or []
    rp = os.path.join(VERIF, "evidence", "replay")
    lines = []
    if cases:
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        c = cases[0]
        inp = os.path.join(rp, "%s.input" % pid)
        with open(inp, "w", newline="") as f:
            f.write(c["input"])
        json.dump({
            "property": pid, "suite": c["suite"], "input": c["input"],
            "what": c["what"],
            "failed_obligations": failed,
            "replay_cmd": "%s/harness/release/%s replay %s %s %s" % (
                BUILD, b["bin"], pid, c["suite"], inp),
        }, open(path, "w"), indent=1)
        print("%s: %s on input %r" % (c["suite"], c["what"], c["input"][:400]))
        for f in failed:
            print("failed obligation: %s" % f)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif b.get("crash"):
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        json.dump({"property": pid, "crash": b["crash"],
                   "replay_cmd": "%s/harness/release/%s %s %s %d /tmp/o.json"
                   % (BUILD, b["bin"], pid, tier, seed)},
                  open(path, "w"), indent=1)
        print("the real code aborted the search process: " + b["crash"][:600])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif b and not b["build_ok"] and b.get("lib_ok") and plan.get("compile"):
        # code that uses the public interface no longer compiles
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        json.dump({"property": pid, "compile_error": b["error"],
                   "replay_cmd": "cd %s/harness && cargo build --release "
                   "--offline --bin %s" % (VERIF, b["bin"])},
                  open(path, "w"), indent=1)
        print("declarations that the derive must accept no longer compile:\n"
              + b["error"][-1500:])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif failed:
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        json.dump({"property": pid, "failed_obligations": failed,
                   "note": "the verifier gave no concrete input, and the "
                   "bounded search over the real code found none"},
                  open(path, "w"), indent=1)
        for f in failed:
            print("failed obligation: %s\n%s" % (f, failed[f][:1500]))
        lines.append("VIOLATION property=%s replay=%s "
                     "no-failing-input-found" % (pid, path))
    if b and not b.get("build_ok", True) and not lines:
        print("the bounded search could not be built:\n" +
              b.get("error", "")[-1500:])
        if not b.get("lib_ok") or not functions:
            sys.exit(2)

    level = plan["level"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
        "assumptions": sorted(set(plan.get("assume", [])) | set(notes)) + [
            "taken on trust by the verified units: " +
            (", ".join(sorted(trusted)) or "nothing"),
            "dropped or rewritten by the extraction: " +
            ("; ".join(sorted(dropped)) or "nothing")],
    }
    proved = [f for f in functions if f not in undecided and f not in failed]
    cov = {
        "obligations": oblig, "discharged": discharged,
        "checker_cmd": "verus <unit>.rs --rlimit N (Verus 0.2026.09.13, "
                       "bundled z3), composed by vf.py",
        "trusted_base": sorted(trusted),
        "functions_under_contract": functions,
        "functions_proved": len(proved),
        "functions_undecided_this_run": undecided,
        "failed_obligations": sorted(failed),
        "solver_ms": smt,
        "units": [{k: r.get(k) for k in ("unit", "verified", "errors",
                   "runs", "wall_s", "probed", "vacuous", "lost")}
                  for r in a["units"]],
        "not_under_contract": plan.get("gap", ""),
    }
    if b:
        cov["bounded"] = {k: b.get(k) for k in
                          ("bins", "evaluations", "distinct", "nontrivial",
                           "parts", "wall_s")}
        cov["evaluations"] = b.get("evaluations", 0) or 0
        cov["distinct_nontrivial"] = b.get("nontrivial", 0) or 0
        cov["rule"] = "; ".join(b.get("rules") or []) or "none"
        cov["samples"] = b.get("samples") or []
    ev["coverage"] = cov
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"),
              indent=1)
    for p, t in known():
        if p == pid:
            print("KNOWN-FINDING: property=%s %s" % (p, t))
    print("%s: %d functions under contract, %d proved, %d undecided; "
          "%d obligations, %d discharged; bounded search %s cases; %.1f s" % (
              pid, len(functions), len(proved), len(undecided), oblig,
              discharged, b.get("evaluations", 0), time.time() - t0))
    for k, v in undecided.items():
        print("undecided: %s: %s" % (k, v[:300]))
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    main()
