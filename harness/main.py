import argparse
import contextlib
import importlib
import logging
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("VP_SUT_SRC", "/repo/src"))

from harness.bootstrap import ensure_deps  # noqa: E402

ensure_deps()


class QuietStream:
    """Drops the markers which ray writes for its log files."""

    def __init__(self, stream):
        self._stream = stream
        self._dropping = False

    def write(self, text):
        if text.startswith((":actor_name:", ":job_id:", ":task_name:")):
            self._dropping = not text.endswith("\n")
            return len(text)
        if self._dropping and text == "\n":
            self._dropping = False
            return 1
        return self._stream.write(text)

    def __getattr__(self, name):
        return getattr(self._stream, name)


def main() -> int:
    sys.stdout, sys.stderr = QuietStream(sys.stdout), QuietStream(sys.stderr)
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--replay")
    p.add_argument("--facet")
    p.add_argument("--scale", type=float, default=1.0)
    a = p.parse_args()

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    # optional experiment-tracking back ends: slow to import and not exercised
    for m in ("mlflow", "wandb", "neptune", "sacred", "jax", "brax"):
        sys.modules[m] = None
    if a.property == "C17":
        from harness import standins

        standins.install()

    logging.disable(logging.CRITICAL)

    from harness import core

    import torch

    torch.set_num_threads(1)

    try:
        import evotorch

        where = os.path.realpath(evotorch.__file__)
        if not where.startswith(core.SUT_DIR):
            print(f"CHECK-ERROR evotorch comes from {where}")
            return 3
        module = importlib.import_module(f"props.{a.property.lower()}")
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR could not load the check")
        return 3

    runner = core.Runner(a.property, module, tier, seed, a.scale)
    try:
        if a.replay:
            return runner.replay(a.replay)
        return runner.run(a.facet)
    finally:
        core.cleanup()


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
