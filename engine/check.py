"""Entry point: check.py PROP [TIER].  Exit 0: held; 1: VIOLATION line(s); 2: no verdict."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

MODULES = {"C16": "check_aux", "C13": "check_names", "C14": "check_equiv", "C15": "check_args", "C23": "check_warn"}
STRUCTS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C17", "C18", "C19", "C20", "C21", "C22"]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if prop in STRUCTS:
            import check_structs
            v = check_structs.main(prop, tier, seed)
        elif prop in MODULES:
            v = importlib.import_module(MODULES[prop]).main(prop, tier, seed)
        else:
            raise run.Infra("unknown property %s" % prop)
        rc = v.finish()
    except run.Infra as e:
        print("NO VERDICT property=%s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
