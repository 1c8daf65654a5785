#!/usr/bin/env python3
"""Decides a property: check.py PROPERTY [quick|thorough] | --setup | --replay FILE"""
import json, os, shutil, sys, tempfile, time
import lsx
from registry import PROPS

VERIF = lsx.VERIF
EV = os.path.join(VERIF, "evidence")
REP = os.path.join(VERIF, "replays")


def known(prop):
    """Findings recorded, not repaired: 'known: property=<id> harness=<h> message=<text>'"""
    res = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith("known: property=%s " % prop):
            f = dict(harness="", message="")
            rest = l.split(" ", 2)[2].strip()
            if rest.startswith("harness="):
                f["harness"], rest = rest[8:].split(" ", 1)
            if rest.startswith("message="):
                f["message"] = rest[8:]
            res.append(f)
    return res


def reproduce(replay, spec, params, v, work):
    """Runs a counterexample on the native build. Returns a description of the failure seen, or None."""
    case = os.path.join(work, "case.txt")
    lsx.write_case(case, spec["h"], params, v["inputs"])

    def scratch():
        return tempfile.mkdtemp(dir=work)

    for _ in range(max(1, spec["repeat"])):
        d = scratch()
        res, rc, to, se = lsx.native(replay, spec["h"], [case], d, timeout=20)
        shutil.rmtree(d, ignore_errors=True)
        if to:
            return "does not terminate (20 s)"
        if rc < 0:
            return "crashed with signal %d" % -rc
        if rc > 0:
            return "exit code %d: %s" % (rc, se[-200:])
        end = res[0]["end"] if res else None
        if end and end.startswith(("assert", "panic")):
            return end
        if end and end.startswith(("short", "assume")):
            return None
    if v["kind"] in ("memory", "assert"):
        d = scratch()
        res, rc, to, se = lsx.native(replay, spec["h"], [case], d, timeout=120, valgrind=True)
        shutil.rmtree(d, ignore_errors=True)
        if rc == 77:
            return "valgrind: " + " ".join(se.split("\n")[0:3])
        if rc < 0 and not to:
            return "crashed with signal %d under valgrind" % -rc
    return None


def validate(replay, spec, params, samples, work):
    """Runs sampled paths natively and compares what they print and how they end."""
    bad, files = [], []
    for i, s in enumerate(samples):
        f = os.path.join(work, "s%d.txt" % i)
        lsx.write_case(f, spec["h"], params, s["inputs"])
        files.append(f)
    if not files:
        return 0, bad
    d = tempfile.mkdtemp(dir=work)
    res, rc, to, se = lsx.native(replay, spec["h"], files, d, timeout=300)
    shutil.rmtree(d, ignore_errors=True)
    for i, s in enumerate(samples):
        r = res[i] if i < len(res) else {"out": None, "end": "missing (exit %s)" % rc}
        if r["out"] != s["out"] or r["end"] != s["end"]:
            bad.append((s, r))
    return len(samples), bad


def text(h):
    return bytes.fromhex(h).decode(errors="replace")


def main():
    if sys.argv[1] == "--setup":
        lsx.build_sx()
        with lsx.Lock():
            lsx.build_ir(os.path.join(lsx.CACHE, "setup"), ["h_smoke"])
        return 0
    if sys.argv[1] == "--replay":
        f = os.path.abspath(sys.argv[2])
        h = [l.split()[1] for l in open(f) if l.startswith("#harness ")][0]
        with lsx.Lock():
            _, replay = lsx.build_ir(os.path.join(lsx.CACHE, "replay"), [h])
        with tempfile.TemporaryDirectory() as d:
            res, rc, to, se = lsx.native(replay, h, [f], d, valgrind="--valgrind" in sys.argv)
        for r in res:
            for o in r["out"]:
                print("  " + text(o))
            print("END", r["end"])
        print("exit", rc, "timeout" if to else "", se[-2000:])
        return 0

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    os.makedirs(REP, exist_ok=True)
    work = os.path.join(lsx.CACHE, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    specs = PROPS[prop]
    found, notes, problems, undecided, runs = [], [], [], [], []
    try:
        lsx.build_sx()
        with lsx.Lock():
            ll, replay = lsx.build_ir(work, [s["h"] for s in specs])
        tb = time.time() - t0
        jobs = int(os.environ.get("LSX_JOBS", str(os.cpu_count() or 4)))
        for s in specs:
            params = s["q" if tier == "quick" else "t"]
            budget = s["tq" if tier == "quick" else "tt"]
            r = lsx.sx_run(ll, s["h"], os.path.join(work, s["h"] + ".json"), jobs, budget, params,
                           ["--max-violations", "6", "--sample-every", "31" if tier == "quick" else "211", "--max-samples", "12"])
            n, bad = validate(replay, s, params, r["samples"], work)
            r["validated"] = n - len(bad)
            r["spec"], r["params"] = s, params
            runs.append(r)
            print("%s %s: paths %d, pruned %d, queries %d (sat %d, unsat %d), solver %.1fs, wall %.1fs, %s, natively validated %d/%d"
                  % (prop, s["h"], r["paths"], r["infeasible"], r["solver"]["queries"], r["solver"]["sat"], r["solver"]["unsat"],
                     r["solver"]["time_s"], r["wall_s"], "complete" if r["complete"] else "INCOMPLETE (%d states left)" % r["pending"],
                     n - len(bad), n), flush=True)
            for a, b in bad[:3]:
                problems.append("%s: path %s ends %r %r in the executor, %r %r natively"
                                % (s["h"], a["inputs"], a["end"], [text(o) for o in a["out"]], b["end"], [text(o) for o in b["out"] or []]))
            for m, k in r["errors"].items():
                undecided.append("%s: %d paths not decided: %s" % (s["h"], k, m))
            if r["errors"] and r["paths"] == 0:
                problems.append("%s: nothing decided: %s" % (s["h"], list(r["errors"])[0]))
            seen = set()
            for v in r["violations"]:
                key = (v["kind"], v["msg"])
                if key in seen:
                    continue
                seen.add(key)
                got = reproduce(replay, s, params, v, work)
                if got is None:
                    problems.append("%s: counterexample %s not reproduced: %s %s" % (s["h"], v["inputs"], v["kind"], v["msg"]))
                    continue
                kn = [k for k in known(prop) if k["harness"] in ("", s["h"]) and k["message"] and k["message"] in v["msg"]]
                if kn:
                    print("KNOWN-FINDING: property=%s %s" % (prop, kn[0]["message"]))
                    continue
                path = os.path.join(REP, "%s-%s-%d.txt" % (prop, s["h"], len(found)))
                lsx.write_case(path, s["h"], params, v["inputs"],
                               "violation: %s %s\nnative: %s\nstack: %s" % (v["kind"], v["msg"], got, " < ".join(v["stack"][:8])))
                found.append((path, v, got))
                print("  %s: %s\n  native run: %s" % (v["kind"], v["msg"], got))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            if found:
                break
            if r["complete"] and not r["violations"]:
                for c in s["covers"]:
                    if c not in r["covers"] and not r["errors"]:
                        problems.append("%s: never reached %r" % (s["h"], c))
            elif not r["complete"]:
                notes.append("%s: time budget of %ds used up with %d states unexplored" % (s["h"], budget, r["pending"]))
    except lsx.Inconclusive as e:
        problems.append(str(e))
        tb = time.time() - t0
    finally:
        shutil.rmtree(work, ignore_errors=True)

    funcs = sorted({f for r in runs for f in r["functions"] if "ledger_rs_lib" in f})
    samples = []
    for r in runs:
        for s in r["samples"][:2]:
            samples.append({"harness": r["spec"]["h"], "inputs": s["inputs"], "end": s["end"], "out": [text(o) for o in s["out"]][:8]})
    sol = {k: round(sum(r["solver"][k] for r in runs), 3) for k in ("queries", "sat", "unsat", "unknown", "cached", "value_set", "audited", "integer", "tabled", "time_s")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] + r["forks"] for r in runs),
            "transitions": sum(r["steps"] for r in runs),
            "traces_validated_against_impl": sum(r["validated"] for r in runs),
            "samples": samples,
            "exhaustive": bool(runs) and len(runs) == len(specs) and all(r["complete"] for r in runs) and not problems and not undecided,
            "paths": sum(r["paths"] for r in runs),
            "refused_paths": sum(sum(r["refused"].values()) for r in runs),
            "assertions_folded": sum(r["asserts_folded"] for r in runs),
            "assertions_solved": sum(r["asserts_solver"] for r in runs),
            "solver": sol,
            "functions_encoded": funcs,
            "functions_encoded_total": len({f for r in runs for f in r["functions"]}),
            "harnesses": [{"harness": r["spec"]["h"], "bounds": r["spec"]["bounds"].replace("{", "{p"), "parameters": {"p%d" % i: p for i, p in enumerate(r["params"])},
                           "complete": r["complete"], "paths": r["paths"], "steps": r["steps"], "max_inputs": r["max_inputs"],
                           "queries": r["solver"]["queries"], "solver_s": round(r["solver"]["time_s"], 2), "wall_s": r["wall_s"],
                           "refused": r["refused"]} for r in runs],
            "undecided": undecided, "problems": problems, "notes": notes,
        },
        "assumptions": [
            "bounds as listed per harness; behaviour outside them is not decided",
            "hash values, the file system, the clock and terminal output are modelled; everything else runs from the compiled code's LLVM IR",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(found),
    }
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("NOTE " + n)
    for p in undecided:
        print("UNDECIDED " + p)
    for p in problems:
        print("PROBLEM " + p)
    if found:
        return 1
    if problems:
        return 2
    print("OK property=%s (%s tier, build %.1fs, total %.1fs)" % (prop, tier, tb, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
