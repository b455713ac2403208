#!/usr/bin/env python3
"""check.py <ID>: decides one property on /repo's current source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
sys.setrecursionlimit(40000)


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    import ir
    import report
    rep = report.Report(pid, mod.TITLE)
    P = ir.load() if getattr(mod, "NEEDS_IR", True) else None
    try:
        mod.run(P, rep)
    except (Exception, RecursionError) as e:
        import traceback
        traceback.print_exc()
        rep.bad("the source is outside what the analysis can evaluate, so the remaining obligations are not discharged (%s: %s)" % (type(e).__name__, str(e)[:120]), key="not analysable")
    return report.finish(rep, getattr(mod, "LEVEL", "other"), mod.EXPLANATION)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(main())
        except SystemExit as e:
            box.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            box.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)
