"""Entry point inside the sandboxed interpreter."""
import importlib
import os
import sys
import traceback


def main() -> int:
    prop = sys.argv[1]
    from mcheck import core  # noqa: E402  (patches the progress-bar pause)

    import py_fatigue

    where = os.path.dirname(os.path.abspath(py_fatigue.__file__))
    if where != os.path.join(core.REPO, "py_fatigue"):
        print(f"py_fatigue comes from {where}", file=sys.stderr)
        return 2
    check = importlib.import_module(f"mcheck.{prop.lower()}").CHECK
    if "--replay" in sys.argv:
        return core.replay(check, sys.argv[sys.argv.index("--replay") + 1])
    jobs = int(
        sys.argv[sys.argv.index("--jobs") + 1]
        if "--jobs" in sys.argv
        else min(8, os.cpu_count() or 1)
    )
    tier = os.environ.get("VERIF_TIER", "quick")
    return core.explore(
        check,
        tier if tier in ("quick", "thorough") else "quick",
        int(os.environ.get("VERIF_SEED", "1")),
        jobs,
    )


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # noqa: BLE001  (exit 1 is reserved for violations)
        traceback.print_exc()
        code = 2
    sys.exit(code)
