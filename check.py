#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property on the tree in /repo."""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from core import Broken, Ctx, Violation  # noqa


def replay(ctx, path):
    r = json.load(open(path))
    done = ctx.execute([r["case"]], 1, r.get("deadline", 20) * 2, r.get("race", False), r.get("cli", False))
    bad, _, _ = ctx._judge_once(r["module"], r["accepts"], done, r.get("consts"))
    print(json.dumps(done[0], indent=1))
    print("rejected" if bad is not None else "accepted")
    return 1 if bad is not None else 0


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    mod = importlib.import_module("props." + prop.lower())
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(ctx, sys.argv[3])
    try:
        mod.check(ctx)
    except Violation as v:
        ctx.evidence(1)
        print("VIOLATION property=%s replay=%s" % (v.prop, v.replay))
        return 1
    if not ctx.traces:
        raise Broken("nothing of the code was observed")
    for k in ctx.known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ctx.evidence(0)
    print("OK property=%s states=%d traces=%d" % (prop, ctx.states, ctx.traces))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR", e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
