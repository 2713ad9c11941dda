"""Makes the vendored libraries importable: unpacks the wheels in vendor/ into .deps when they are not there yet."""

import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")


def ensure_deps() -> str:
    if not os.path.isfile(os.path.join(DEPS, "COMPLETE")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        vendor = os.path.join(ROOT, "vendor")
        for name in sorted(os.listdir(vendor)):
            if name.endswith(".whl"):
                with zipfile.ZipFile(os.path.join(vendor, name)) as z:
                    z.extractall(tmp)
        with open(os.path.join(tmp, "COMPLETE"), "w") as f:
            f.write("ok\n")
        try:
            os.rename(tmp, DEPS)
        except OSError:
            # another process got there first
            shutil.rmtree(tmp)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)
    return DEPS


if __name__ == "__main__":
    ensure_deps()
    import hypothesis

    print("hypothesis", hypothesis.__version__, "ready in", DEPS)
