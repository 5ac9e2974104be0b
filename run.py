"""Entry point of every check.

    run.py C01                 the check of property C01 (tier from VERIF_TIER)
    run.py --replay FILE       run one saved case
    run.py --selftest          set-up check: everything imports, one tiny run
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import boot  # noqa: E402,F401
from pbt import runner  # noqa: E402


def main(argv):
    if argv and argv[0] == "--worker":
        return runner.worker_main(argv[1:])
    if argv and argv[0] == "--replay":
        return runner.replay_main(argv[1])
    if argv and argv[0] == "--selftest":
        import hypothesis
        import jax
        from pbt import api  # noqa: F401
        print(f"hypothesis {hypothesis.__version__}, jax {jax.__version__}, code under test {boot.REPO}")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.main(argv[0].upper(), tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
