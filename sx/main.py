import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx.ctx import Ctx, finish
from sx.build import BuildError

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier if tier in ("quick", "thorough") else "quick", seed)
    try:
        m = importlib.import_module("props." + pid.lower())
        try:
            m.run(ctx)
        except BuildError as e:
            ctx.rec.maybe("build", "harness does not build against this tree: %s" % e)
        except Exception as e:
            ctx.rec.maybe("check", "internal: %s" % traceback.format_exc()[-1500:])
        return finish(ctx)
    finally:
        ctx.b.close()

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
