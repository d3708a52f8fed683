#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: exit 0 if the property held on everything
explored, 1 with a VIOLATION line otherwise."""
import sys, os, traceback, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import ctx as CTX, runs, native

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        runs.build(); print("harness built"); return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = CTX.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try: c.env = runs.Env()
    except runs.BuildError as e:
        print(str(e)); c.open("build", "the harness does not build against this tree"); return c.finish()
    import checks_num, checks_cal, checks_txt, checks_panic
    def late():
        """Whatever happens (a query that ignores its limit), there is an answer in time."""
        c.open("time limit", "stopped; what was not reached is undecided")
        r = c.finish(); sys.stdout.flush(); os._exit(r)
    w = threading.Timer(780, late); w.daemon = True; w.start()
    f = None
    for m in (checks_num, checks_cal, checks_txt, checks_panic):
        f = f or getattr(m, prop, None)
    try: f(c)
    except native.Hang as e:
        c.bad("native call returns", e.args[0], "no answer within 20 s", "a result")
    except Exception as e:
        traceback.print_exc()
        c.open("internal", "%s: %s" % (type(e).__name__, str(e)[:300]))
    w.cancel()
    r = c.finish()
    c.env.native.close()
    return r
if __name__ == "__main__": sys.exit(main())
