"""python -m mc.run P01 [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    os.environ["VERIF_TIER"] = tier
    if "--backend" in argv:
        os.environ["MC_BACKEND"] = argv[argv.index("--backend") + 1]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from mc import check, env
    env.TIER = tier
    ck = check.Check(pid, tier)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        ck.level = getattr(mod, "LEVEL", "model_checking")
        mod.run(ck)
    except check.HarnessError as e:
        print(e)
        return 2
    except Exception as e:
        traceback.print_exc()
        if check.in_repo(e.__traceback__):
            ck.violation("exception:" + type(e).__name__,
                         "unexpected exception from the code under test: " + traceback.format_exc()[-1500:])
        else:
            return 2
    if os.environ.get("MC_SUBRUN"):
        from mc import both
        both.dump(ck, os.environ["MC_SUBRUN"])
        return 0
    return ck.finish()


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
