import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base  # noqa: E402
import tlc  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import pytorch_kinematics
    assert os.path.realpath(pytorch_kinematics.__file__).startswith(os.path.realpath(base.REPO) + "/src/"), pytorch_kinematics.__file__
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        mod, fn = r["engine"].split(":")
        engine = getattr(importlib.import_module(mod), fn)
        base.default_dtype(r["index"], r["opts"])
        try:
            engine(r["behaviour"], r["seed"] * 1000003 + r["index"], r["opts"])
        except Exception:
            traceback.print_exc()
            return 1
        print("replayed without mismatch")
        return 0
    import checks
    c = base.Check(prop, tier, seed)
    try:
        getattr(checks, prop)(c)
    except tlc.SpecError as e:
        print("error of the check: %s" % e, file=sys.stderr)
        return 2
    return c.finish()


sys.exit(main())
