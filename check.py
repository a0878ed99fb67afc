#!/usr/bin/env python3
"""Decides one property of /repo: check.py C07 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it does not.
Exit 2: the check can't give an answer."""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nxv import core, props, session  # noqa: E402


def known(pid):
    path = os.path.join(core.VERIF, "known-findings.txt")
    out = []
    for line in open(path):
        if line.startswith("finding: property=%s " % pid):
            out.append(line.strip())
    return out


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    a = p.parse_args()
    prop = props.PROPERTIES[a.property]
    s = session.Session(a.property, a.tier, a.seed, prop.level)
    try:
        if a.replay:
            props.replay(s, json.load(open(a.replay)))
        else:
            core.build("plain")
            s.log("built")
            prop.run(s)
    except session.Violation as v:
        s.evidence(1)
        print("VIOLATION property=%s replay=%s" % (a.property, v.replay), flush=True)
        return 1
    except core.Broken as e:
        print("no answer: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for line in known(a.property):
        print("KNOWN-FINDING: " + line[len("finding: "):])
    s.evidence(0)
    s.log("held on everything explored")
    return 0


if __name__ == "__main__":
    sys.exit(main())
