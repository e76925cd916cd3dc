"""Entry point of every check: python -m lib.main <property> [quick|thorough]"""
import importlib, os, sys, traceback
from lib import vlib

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid)
    chk = vlib.Check(pid, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(chk)
        rc = chk.finish()
    except vlib.Machinery as ex:
        print("MACHINERY ERROR (no verdict): %s" % ex)
        rc = 1 if (chk.viol and chk.finish()) else 3
    except Exception as ex:
        traceback.print_exc()
        fr = [f for f in traceback.extract_tb(ex.__traceback__)
              if os.path.abspath(f.filename).startswith(os.path.join(vlib.REPO, "src"))]
        if fr:
            # the code under test failed where the check expected it to succeed
            chk.violation("crash", {"at": "%s:%s" % (os.path.basename(fr[-1].filename), fr[-1].name),
                                    "exception": type(ex).__name__}, str(ex))
        fr = traceback.extract_tb(ex.__traceback__)
        mine = [f for f in fr if os.path.abspath(f.filename).startswith(os.path.join(vlib.VERIF, "checks"))]
        if not chk.viol and mine and isinstance(ex, (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, AssertionError)):
            # an answer of the code under test that the check cannot even read (no such answer occurs on a sound tree)
            chk.violation("unreadable_answer", {"at": "%s:%s" % (os.path.basename(mine[-1].filename), mine[-1].name),
                                                "exception": type(ex).__name__}, str(ex))
        if not chk.viol:
            print("MACHINERY ERROR (no verdict)")
        rc = 1 if (chk.viol and chk.finish()) else 3
    sys.stdout.flush()
    os._exit(rc)

if __name__ == "__main__":
    main()
