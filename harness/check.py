import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    from common import CodeError, MachineryError, Report, raised_by_code

    mod = importlib.import_module("p_" + prop.lower())
    rep = Report(prop)
    try:
        mod.run(rep)
    except MachineryError as e:
        print(f"ERROR of the check: {e}")
        return 2
    except CodeError as e:
        rep.violation(f"the code {e.what}", {"item": e.item})
    except Exception as e:
        traceback.print_exc()
        if not raised_by_code(e):
            print("ERROR of the check")
            return 2
        rep.violation(f"the code raised {type(e).__name__}: {e}"[:500], {"traceback": traceback.format_exc()[-4000:]})
    return rep.finish(level=getattr(mod, "LEVEL", "model_checking"), assumptions=getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(main())
