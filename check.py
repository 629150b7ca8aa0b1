#!/usr/bin/env python3
"""check.py <property> | --replay <file> | --setup"""
import importlib.util, os, sys, traceback
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "lib"))
import build, profiles, runner


def main(a):
    if a[0] == "--setup":
        for f in build.FLAVOURS:
            if f not in ("plain",):
                build.build(f)
        import icb
        icb.test_pem(build.BUILD)
        return 0
    if a[0] == "--replay":
        return runner.replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    ctx = runner.Ctx(pid, "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = HERE / "checks" / (pid + ".py")
    if pid in profiles.P:
        runner.run_profile(ctx)
    if mod.exists():
        spec = importlib.util.spec_from_file_location("check_" + pid, mod)
        m = importlib.util.module_from_spec(spec)
        sys.modules["check_" + pid] = m
        spec.loader.exec_module(m)
        if len(ctx.viol) < 3:
            m.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
