import sys
from . import boot  # noqa: F401  (first: environment and paths)


def run():
    from . import runner

    p = sys.argv[1]
    sys.argv[1:] = sys.argv[2:]
    return runner.main(f"checks.{p.lower()}")


if __name__ == "__main__":
    import os

    code = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
