"""run.py PROPERTY [quick|thorough]: decide one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULES = ["p_names", "p_msg", "p_text", "p_libmy", "p_queue", "p_life", "p_util", "p_tool", "p_args", "p_zone"]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.CHECKS:
            try:
                c = vlib.Check(prop, tier)
                mod.CHECKS[prop](c, tier == "quick")
                return c.finish()
            except Exception:
                traceback.print_exc()
                return 2
    print("no check for " + prop)
    return 2


sys.exit(main())
