#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

1. gocv translates the functions under contract from the current Go source and
   Verus discharges every obligation (deductive part, unbounded).
2. The history runner executes the real code against a reference model: it
   stands in (bounded, labelled so) for the functions no contract reaches, and
   looks for a failing input when an obligation fails.
"""
import json, os, subprocess, sys, tempfile, time, shutil, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GO111MODULE="on")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    e.setdefault("GOMODCACHE", os.path.join(e["HOME"], "go/pkg/mod"))
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin"
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=2):
    print(msg)
    sys.exit(code)


def go_env_for_load(tmp):
    """a private go.mod/go.sum copy so that `go list` works offline and leaves /repo alone"""
    e = env()
    mod = os.path.join(tmp, "load.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    with open(os.path.join(tmp, "load.sum"), "w") as f:
        ls = set(open(os.path.join(REPO, "go.sum")).read().split("\n"))
        ls |= set(open(os.path.join(HERE, "harness/extra.sum")).read().split("\n"))
        f.write("\n".join(sorted(x for x in ls if x)) + "\n")
    e["GOFLAGS"] = "-mod=mod -modfile=" + mod
    return e


def proof(prop, tmp, tier):
    e = env()
    e["GOFLAGS"] = "-mod=mod"
    exe = os.path.join(tmp, "gocv")
    r = run(["go", "build", "-o", exe, "."], cwd=os.path.join(HERE, "gocv"), env=e)
    if r.returncode:
        die("gocv does not build:\n" + r.stdout)
    rep = os.path.join(tmp, "report.json")
    limit = 450 if tier == "quick" else 3000
    r = run([exe, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-prop", prop,
             "-out", os.path.join(tmp, "gv"), "-report", rep, "-timeout", str(limit)] + (["-vacuity"] if tier == "thorough" else []), cwd=tmp, env=go_env_for_load(tmp))
    if not os.path.exists(rep):
        # the generator cannot read the tree: nothing is proved, nothing refuted
        return {"failed": [{"name": "gocv/run", "fn": "gocv", "kind": "run", "pos": "", "text": "", "msg": "gocv gave no report: " + r.stdout[-1500:]}]}
    return json.load(open(rep))


def harness(exe, prop, tier, seed, budget, tmp, name):
    out = os.path.join(tmp, name + ".json")
    r = run([exe, "-prop", prop, "-tier", tier, "-seed", str(seed), "-budget", str(budget), "-jobs", "8", "-out", out], cwd=tmp, env=env())
    if not os.path.exists(out):
        die("the history runner failed:\n" + r.stdout[-3000:])
    return json.load(open(out))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    chk = [c for c in manifest["checks"] if c["property"] == prop]
    level = chk[0]["level"] if chk else "other"
    tmp = tempfile.mkdtemp(prefix="plainkv-check-")
    try:
        sys.exit(decide(prop, tier, seed, level, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, level, tmp):
    r = run([os.path.join(HERE, "harness/build.sh"), os.path.join(tmp, "h"), "real"], env=env())
    if r.returncode:
        die("the history runner does not build against the tree:\n" + r.stdout[-3000:])
    rep = proof(prop, tmp, tier)
    failed = rep.get("failed") or []
    # out of reach: the text no longer fits the subset or the contract's anchors;
    # nothing was refuted, so the bounded check stands in for these functions
    reach_kinds = ("translate", "contract", "missing", "run")
    unreached = [f for f in failed if f["kind"] in reach_kinds]
    refuted = [f for f in failed if f["kind"] not in reach_kinds]
    vacuous = [v for v in rep.get("vacuity") or [] if "VACUOUS" in v]
    if vacuous:
        die("a contract holds for want of an execution:\n" + "\n".join(vacuous))
    budget = 40 if tier == "quick" else 1200
    if failed and tier == "quick":
        budget = 200
    parts = [("strict", os.path.join(tmp, "h", "vh-strict"), budget)]
    if prop in ("C05", "C01", "C02"):
        parts = [("strict", os.path.join(tmp, "h", "vh-strict"), budget * 2 // 3), ("real", os.path.join(tmp, "h", "vh-real"), budget // 3)]
    runs, fail = [], None
    for name, exe, b in parts:
        h = harness(exe, prop, tier, seed, b, tmp, "h-" + name)
        h["storage"] = name
        runs.append(h)
        if h.get("fail"):
            fail = (name, h["fail"])
            break
    violations = 0
    replay = None
    if fail or refuted:
        violations = 1
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        doc = {"property": prop, "tier": tier, "seed": seed}
        if fail:
            doc["Scenario"] = fail[1]["Scenario"]
            doc["message"] = fail[1]["Msg"]
            doc["last_operations"] = fail[1]["Ops"]
            doc["storage"] = fail[0]
            doc["how_to_replay"] = "harness/build.sh DIR real; DIR/vh-%s -replay THIS_FILE" % fail[0]
        if failed:
            doc["failed_obligations"] = [{"name": f["name"], "source": f["pos"], "obligation": f["text"], "verifier_output": f["msg"]} for f in failed]
        replay = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(doc, open(replay, "w"), indent=1)
    # evidence
    fns = rep.get("functions") or []
    evals = sum(h["evaluations"] for h in runs)
    nsc = sum(h["scenarios_run"] for h in runs)
    trusted = ["gocv: the translation from Go to Verus proof functions (syntax-directed, from the current source; integers are mathematical, conversions to unsigned and 32-bit types wrap)",
               "Verus %s and its Z3" % verus_version(),
               "Go type safety: slices are well formed (0 <= off, len <= cap, off+cap < 2^48), pointer parameters are not aliased"]
    trusted += ["trusted contract: " + t for t in (rep.get("trusted") or [])]
    cov = {
        "functions_under_contract": [dict(function=f["key"], obligations=f["obligations"], solver_s=round(f.get("seconds", 0), 3)) for f in fns],
        "obligations": rep.get("obligations", 0),
        "discharged": rep.get("discharged", 0),
        "obligation_kinds": rep.get("kinds") or {},
        "lemmas_proved": rep.get("lemmas", 0),
        "back_end": "Verus (Z3 4.x bundled with Verus)",
        "solver_s": rep.get("smt_seconds", 0),
        "verifier_wall_s": rep.get("seconds", 0),
        "checker_cmd": "gocv -prop %s; %s" % (prop, rep.get("cmd", "")),
        "trusted_base": trusted,
        "functions_out_of_reach_this_run": [{"function": f["fn"], "why": f["msg"][:400]} for f in unreached],
        "unproved_statements_in_the_contract_text": rep.get("assumed") or [],
        "loops_and_recursive_calls_without_a_measure": rep.get("no_measure") or [],
        "vacuity_probes": {"run": tier == "thorough", "places_probed": rep.get("probes", 0), "reachable": rep.get("probes_refuted", 0), "not_shown_reachable": rep.get("vacuity") or []},
        "bounded_part": {
            "label": "bounded, not proved",
            "bound": "the histories enumerated by harness/vh/plan.go for this seed, as many as fit in the time budget",
            "runs": [{k: h[k] for k in ("storage", "scenarios_planned", "scenarios_run", "evaluations", "max_height_or_dirs", "wall_s")} for h in runs],
        },
        "evaluations": evals,
        "distinct_nontrivial": nsc,
        "rule": "a case is one history (kind, size profile, wave, seed) run on the real code, every one with a different seed and with at least one insertion and one deletion; an evaluation is one comparison against the reference model",
        "samples": [s for h in runs for s in h["samples"]][:6],
        "explanation": chk_note(prop),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["the file storage manager (github.com/roy2220/fsm) meets its documented contract; in the bounded part it is replaced by a strict version which moves its mapping on every allocation and poisons released space, and by the real one",
                          "the structures are used by one goroutine at a time, as documented",
                          "no crash between operations: the library offers no recovery"],
          "wall_s": round(time.time() - T0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f in unreached:
        print("OUT-OF-REACH %s (%s): the bounded check stands in. %s" % (f["fn"], f["kind"], f["msg"].split("\n")[0][:300]))
    for f in refuted:
        print("FAILED-OBLIGATION %s %s: %s" % (f["name"], f["pos"], f["text"]))
    if fail:
        print("failing history: %s: %s" % (fail[1]["Scenario"], fail[1]["Msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if refuted:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    print("%s: %d functions under contract, %d of %d obligations discharged; %d histories, %d comparisons (bounded) in agreement; %.0f s" % (prop, len(fns), cov["discharged"], cov["obligations"], nsc, evals, time.time() - T0))
    return 0


def chk_note(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level_note"]
    return ""


def verus_version():
    try:
        for l in run(["verus", "--version"], env=env()).stdout.split("\n"):
            if "Version" in l:
                return l.split(":")[1].strip()
    except Exception:
        pass
    return "?"


main()
