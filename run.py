#!/usr/bin/env python3
"""Runs the checks of MANIFEST.json:  python3 run.py check C16 [--tier quick|thorough]
   Other commands:  build | judge MODULE TRACE | replay FILE | selftest
Exit 0: held.  Exit 1 + VIOLATION line: broken (reproduced on the real code).  Exit 2: error of the check."""
import json, os, sys, time
from checks import CHECKS
from engine import CheckError, Run, build

def check(prop, tier, seed):
    c = CHECKS[prop]
    build(race=c.get("race", False), gimiq=c.get("gimiq", False))
    run = Run(prop, tier, seed)
    try:
        for mc in c.get("mc", []):
            run.model_check(mc)
        for tr in c.get("traces", []):
            run.conform(tr)
            if run.violations:
                break
        if c.get("custom") and not run.violations:
            c["custom"](run)
        run.evidence(c["note"])
        for k in run.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for path, why in run.violations:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + why)
        if not run.violations:
            print("OK %s: %d states, %d transitions, %d traces (%d events) validated in %.1f s" %
                  (prop, run.states, run.transitions, run.traces, run.events, time.time() - run.start))
        return 1 if run.violations else 0
    finally:
        run.close()

def replay(path):
    d = json.load(open(path))
    c = CHECKS[d["property"]]
    build(race=c.get("race", False), gimiq=c.get("gimiq", False))
    run = Run(d["property"], d["tier"], d["seed"])
    try:
        for tr in c["traces"]:
            if tr.driver == d["driver"]:
                extra = ["-in", tr.inputs(run)] if tr.inputs else []
                p, crashed = run.record(tr, extra, "replay", d["n"], only=[d["case"]])
                if crashed:
                    print("process dies:", crashed[1][:2000])
                    return 1
                lines, _, r = run.judge(tr, p)
                for i, why in r.bad:
                    print(why)
                    print(lines[i - 1][:4000])
                print("%d of %d events rejected" % (len(r.bad), len(lines)))
                return 1 if r.bad else 0
        print("no driver", d["driver"])
        return 2
    finally:
        run.close()

def main(argv):
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    try:
        if argv[0] == "build":
            build(race=True, gimiq=True)
            return 0
        if argv[0] == "check":
            return check(argv[1], tier, seed)
        if argv[0] == "replay":
            return replay(argv[1])
        raise CheckError("unknown command " + argv[0])
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
