#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

1. The deductive step: engine/ (contract-based VC generator over the SSA form of /repo's
   source) generates the obligations of the property and discharges them. It decides.
2. The replay step: executable readings of the same property (replay/) run the real code on
   concrete inputs. They turn a failed obligation into a failing input, and are a bounded
   cross-check of the deductive step (reported as bounded, never counted as proved).
"""
import json, os, subprocess, sys, time, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# property -> [(regex, shrink, cpus)]; the 2nd list is added on the thorough tier and after a failed obligation
REPLAY = json.load(open(os.path.join(HERE, "replay", "tests.json")))

# a check has 900 s in all
T0, LIMIT = time.time(), (800 if TIER == "quick" else 3000)

def run_replay(spec, log):
    regex, shrink, cpus = spec
    left = LIMIT - (time.time() - T0)
    if left < 45:
        log.append("## replay %s: no time left" % regex)
        return None, ""
    env = dict(os.environ, PROP=PROP, LIMIT=str(int(left)))
    if shrink: env["SHRINK"] = str(shrink)
    if cpus: env["CPUS"] = cpus
    p = subprocess.run([os.path.join(HERE, "replay", "run.sh"), regex], env=env, cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    log.append("## replay %s shrink=%s cpus=%s -> exit %d\n%s" % (regex, shrink, cpus, p.returncode, p.stdout[-20000:]))
    if p.returncode != 0 and "test timed out" in p.stdout and (left < 300 or spec not in REPLAY[PROP]["quick"]):
        return None, p.stdout # not a hang: too little time for these tests
    return p.returncode, p.stdout

def engine(prop):
    exe = os.path.join(HERE, "engine", "bin", "vcg")
    if not os.path.exists(exe):
        r = subprocess.run([os.path.join(HERE, "setup.sh")], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            return None, r.stdout
    out = os.path.join(HERE, "evidence", prop + ".engine.json")
    if os.path.exists(out): os.remove(out)
    try:
        p = subprocess.run([exe, "-repo", REPO, "-prop", prop, "-tier", TIER, "-out", out], cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=500 if TIER == "quick" else 800)
        txt = p.stdout
    except subprocess.TimeoutExpired as e:
        txt = "engine: time limit\n" + (e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""))
    if os.path.exists(out):
        res = json.load(open(out)); os.remove(out)
        return res, txt
    return None, txt

PROP = sys.argv[1]

def main():
    prop = PROP
    conf = REPLAY[prop]
    log, viol = [], None
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rpath = os.path.join(HERE, "replays", prop + ".txt")
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, m.group(2)))
    res, failed = None, []
    if conf.get("engine"):
        res, txt = engine(prop)
        log.append("## deductive step\n" + (txt or ""))
        if res is None:
            failed = ["the engine gave no answer (see output)"]
        else:
            failed = [o["name"] + ": " + o.get("why", "") for o in res["obligations"] if not o["ok"]]
            if not res["obligations"] and not res.get("unreached"):
                failed = ["no obligations were generated"]
    specs = list(conf["quick"])
    if TIER == "thorough" or failed or (res and res.get("unreached")):
        specs += [s for s in conf.get("more", []) if s not in specs]
    ran, bad, norun = [], [], []
    for s in specs:
        rc, out = run_replay(s, log)
        ran.append({"tests": s[0], "batch": s[1] or 1048576, "cpus": s[2] or "all", "exit": rc})
        if rc is None:
            ran[-1]["exit"] = "not run, no time left"
            break
        if rc == 3: # run.sh's own
            norun.append(s[0]) # the tests don't build against this tree, or the tree doesn't build
            break
        if rc != 0:
            bad.append((s, out))
            break
    if bad or failed:
        with open(rpath, "w") as f:
            f.write("property %s is violated on %s\n\n" % (prop, REPO))
            for o in failed:
                f.write("failed obligation: %s\n" % o)
            for s, out in bad:
                f.write("failing input found by: SHRINK=%s CPUS=%s VERIF_SEED=%d /verif/replay/run.sh '%s'\n" % (s[1], s[2], SEED, s[0]))
                for l in out.splitlines():
                    if re.search(r"_test.go:\d+:|panic|timed out|fatal error|^--- FAIL|running tests:|^\t\tTest|build failed|cannot|undefined|: error", l):
                        f.write("   " + l.strip() + "\n")
            f.write("\n" + "\n".join(log) + "\n")
        print("\n".join(failed))
        for s, out in bad:
            print(out[-3000:])
        print("VIOLATION property=%s replay=%s%s" % (prop, rpath, "" if bad else " no-failing-input-found"))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "wall_s": round(time.time() - T0, 2),
          "violations": 1 if (bad or failed) else 0}
    bounded = {"what": "executable readings of the property run on the real code; bounded, not counted as proved", "runs": ran}
    if res is not None:
        # what couldn't be brought under contract is covered by the bounded replay only
        ev["level"] = "exploration" if res.get("unreached") else "proof"
        obs = res["obligations"]
        ev["coverage"] = {
            "obligations": len(obs), "discharged": sum(1 for o in obs if o["ok"]),
            "checker_cmd": "engine/bin/vcg -repo %s -prop %s (terms: built-in normaliser; Int/Bool: z3)" % (REPO, prop),
            "trusted_base": res["trusted"],
            "functions_under_contract": res["functions"], "loops": res["loops"],
            "solver": res["solver"], "obligation_list": obs, "bounded_cross_check": bounded}
        if res.get("unreached"):
            ev["coverage"].update({"not_under_contract": res["unreached"], "evaluations": len(ran), "distinct_nontrivial": len(ran),
                                   "rule": "the replay tests stand in, bounded, for what is not under contract", "samples": ran})
        ev["assumptions"] = res["assumptions"] + json.load(open(os.path.join(HERE, "tools", "assumptions.json"))).get(prop, [])
    else:
        ev["level"] = "exploration"
        ev["coverage"] = {"evaluations": len(ran), "distinct_nontrivial": len(ran),
                          "rule": "each run is a Go test of replay/ that executes the real code over many inputs (sizes, CPU counts, batch sizes, corruptions)",
                          "samples": ran, "bounded_cross_check": bounded}
        ev["assumptions"] = ["bounded: only the inputs of the replay tests are covered"]
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if norun and res is None:
        print("no answer: the replay tests could not be built\n" + log[-1][-2000:])
        sys.exit(3)
    sys.exit(1 if (bad or failed) else 0)

main()
