"""python -m mc.run C01 [quick|thorough]      run one check
python -m mc.run --replay FILE               re-run one recorded case"""
import importlib
import json
import os
import sys

from mc import env, core  # noqa: F401


def main(argv):
    if argv[0] == "--replay":
        rec = json.load(open(argv[1]))
        env.load()
        mod = importlib.import_module("mc.props." + rec["property"].lower())
        for sp in mod.spaces(rec.get("tier", "quick")):
            if sp.name == rec["space"]:
                ctx, msg = (core._isolated if sp.isolated else core.run_case)(sp, rec["case"])
                print("case %s of %s: %s" % (core.canon(rec["case"]), sp.name, msg or "holds"))
                return 1 if msg else 0
        print("no such space")
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        env.load()
    except Exception as e:
        return core.import_failure(prop, tier, e)
    mod = importlib.import_module("mc.props." + prop.lower())
    spaces = mod.spaces(tier)
    res = core.explore(prop, spaces, tier)
    return core.report(prop, mod, spaces, res, tier)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
