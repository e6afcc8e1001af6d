#!/opt/venv/bin/python
"""run.py <property id> [--replay FILE]   (VERIF_SEED, VERIF_TIER, VERIF_REPO)"""
import importlib
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
os.environ["TZ"] = "VRF-08:45"  # naive datetimes must not be taken as local
os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
os.environ.pop("LANGUAGE", None)
time.tzset()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import warnings
    warnings.simplefilter("ignore")
    from pf import engine
    from pf.index import MODULE_OF
    pid = sys.argv[1]
    if pid == "--selftest":
        for m in sorted(set(MODULE_OF.values())):
            importlib.import_module("pf.props." + m)
        print(f"{len(MODULE_OF)} properties, {engine.WORKERS} workers, code under test: {engine.env.REPO}")
        return 0
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    mod = importlib.import_module("pf.props." + MODULE_OF[pid])
    prop = mod.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return engine.main(prop, tier, seed, replay)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
