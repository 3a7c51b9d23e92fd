#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decide property ID on /repo's working tree
   check.py ID replay FILE           run the case of a reported violation again

Exit 0: held on everything explored.  Exit 1, with a VIOLATION line: broken.  Anything else: the check
itself could not do its work."""
import json, os, re, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build, run, checks

KNOWN = os.path.join(VERIF, "known-findings.txt")

def known_findings(prop):
    """Lines `known: property=<id> key=<key regexp> case=<input regexp> what fails'; `fixed:' lines suppress nothing."""
    out = []
    for l in open(KNOWN, errors="replace"):
        m = re.match(r"known: property=(\S+) key=/(.*?)/ input=/(.*?)/ (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), re.compile(m.group(3), re.S), m.group(4)))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = checks.CHECKS[prop]
    if tier == "replay":
        return replay(prop, check, sys.argv[3])
    t0 = time.time()
    s = run.Session(prop, tier, seed)
    try:
        check["fn"](s)
    finally:
        s.close()
    # ---- verdict
    known = known_findings(prop)
    hit, fresh = set(), {}
    for v in s.violations:
        for k, i, what in known:
            if k.search(v["key"]) and i.search((v.get("input") or "") + "\n" + v["detail"]):
                hit.add(what)
                break
        else:
            fresh.setdefault(v["key"], v)
    ev = dict(property=prop, tier=tier, seed=seed, level=check["level"],
              coverage=dict(evaluations=s.evaluations, distinct_nontrivial=len(s.distinct), rule=check["rule"],
                            samples=s.samples[:3], observed=dict(sorted(s.counts.items())), parts=s.parts, notes=s.notes),
              assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, i, what in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if what in hit else " (not met in this run)"))
    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(list(fresh.values())[:10]):
            path = os.path.join(d, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s, case %s of part %s" % (v["key"], v["case"], v["part"]))
            for l in v["detail"].split("\n")[:14]:
                print("  | " + l[:400])
        return 1
    for n in s.notes:
        print("note: " + n)
    missing = [c for c in check.get("must_observe", []) if not s.counts.get(c)]
    if not s.evaluations or not s.distinct or missing:
        print("check.py: nothing was observed%s" % (": " + ", ".join(missing) if missing else ""), file=sys.stderr)
        return 2
    print("%s: held on %d executions, %d distinct (%s, seed %d, %.1f s)" % (prop, s.evaluations, len(s.distinct), tier, seed, ev["wall_s"]))
    return 0

def replay(prop, check, path):
    v = json.load(open(path))
    s = run.Session(prop, "replay", v["seed"])
    try:
        if v.get("data"):
            rc, err = s.fuzz_single(build.build("fuzz", v["harness"]), bytes.fromhex(v["data"]))
            print("VIOLATION property=%s replay=%s\nexit %d\n%s" % (prop, path, rc, err[-6000:]) if rc else "the input on its own does not violate the property")
            return 1 if rc else 0
        if not v.get("harness") or v.get("case") is None:
            print("this violation has no single case; it is:\n" + v["detail"])
            return 2
        prog = build.build(v["variant"], v["harness"], checks.extra_sources(v["harness"]))
        rc, recs, err = s.run_single(prog, v["mode"], v["case"], v.get("args", []), checks.replay_env(s, v))
        bad = False
        for r in recs:
            if r["t"] == "v":
                bad = True
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print(r["key"] + "\n" + r["detail"] + "\ninput: " + r["input"])
        if rc != 0:
            bad = True
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("exit %d\n%s" % (rc, err[-6000:]))
        if not bad:
            print("the case on its own does not violate the property")
        return 1 if bad else 0
    finally:
        s.close()

if __name__ == "__main__":
    try:
        code = main()
    except build.BuildError as e:
        print("check.py: cannot build: %s" % e, file=sys.stderr)
        code = 2
    except run.HarnessError as e:
        print("check.py: harness error: %s" % e, file=sys.stderr)
        code = 2
    sys.exit(code)
