"""Entry point of every check: run.py <property id> <quick|thorough> [--replay FILE], or run.py --setup."""

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from pbt import bootstrap  # noqa: E402


def main(argv):
    if argv[:1] == ["--setup"]:
        bootstrap.ensure_deps()
        print("setup: ok")
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    bootstrap.activate()
    from pbt import core

    return core.run(prop, tier, replay)


def stop_workers():
    """End joblib's pool of worker processes: it would outlive this process and keep its output open for minutes."""
    pool = sys.modules.get("joblib.externals.loky.reusable_executor")
    executor = getattr(pool, "_executor", None)
    if executor is not None:
        executor.shutdown(wait=True, kill_workers=True)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # an error of the machinery, never a verdict
        import traceback

        traceback.print_exc()
        code = 2
    try:
        stop_workers()
    except Exception:
        pass
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
