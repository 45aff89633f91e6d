#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   check one property
   run.py replay <file>                 run a recorded history again and judge it
   run.py setup                         check that the tools are there"""
import os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        d = tempfile.mkdtemp(prefix="verif-")
        env = dict(os.environ, VERIF_CHILD="1", VERIF_SCRATCH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        py = PY if os.path.exists(PY) else sys.executable
        try:
            p = subprocess.run([py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=env)
            return p.returncode
        finally:
            shutil.rmtree(d, ignore_errors=True)
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import tlc
    if sys.argv[1] == "setup":
        m = tlc.model()
        print("specification loaded: %d classes" % len(m["meta"]))
        return 0
    if sys.argv[1] == "replay":
        import replay
        return replay.main(sys.argv[2])
    import checks
    from ctx import Ctx
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    checks.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
