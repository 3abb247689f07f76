"""python -m mon.run <PROPERTY> [quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("PYTSPL_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while rest:
        a = rest.pop(0)
        if a == "--replay":
            replay = rest.pop(0)
        elif a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs("/tmp/.mpl-verif", exist_ok=True)
    os.environ.setdefault("MPLCONFIGDIR", "/tmp/.mpl-verif")
    from mon import common

    import pytspl

    where = os.path.realpath(os.path.dirname(pytspl.__file__))
    if where != os.path.realpath(os.path.join(REPO, "pytspl")):
        print(f"INCONCLUSIVE property={prop}: pytspl imported from {where}")
        return 2
    mod = importlib.import_module(f"mon.checks.{prop.lower()}")
    if replay:
        r = json.load(open(replay))
        os.environ["VERIF_SEED"] = str(r["seed"])
        if hasattr(mod, "prepare"):
            mod.prepare(r["tier"])
        m, verdict = common.run_case(mod, prop, r["tier"], r["seed"],
                                     r["case"])
        print(json.dumps(m.notes, indent=1))
        print(verdict)
        return 1 if verdict and verdict[0] == "violation" else 0
    return common.run_check(mod, prop, tier, seed)


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    except Exception as e:  # broken import of the library, broken harness
        import traceback

        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
