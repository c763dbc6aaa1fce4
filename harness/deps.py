"""Make hypothesis importable offline.

It is not part of the repository's environment, so its wheel is unpacked from the
local wheelhouse into the git-ignored /verif/.deps (or, failing that, taken from the
verification tools' own environment)."""
import glob
import os
import pathlib
import shutil
import sys
import tempfile
import zipfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEPS = ROOT / ".deps"
WHEELS = pathlib.Path("/opt/veriftools/wheels")
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def ensure() -> None:
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if not (DEPS / "hypothesis").is_dir():
        try:
            tmp = pathlib.Path(tempfile.mkdtemp(dir=ROOT, prefix=".deps-tmp-"))
            for pat in ("hypothesis-*-cp312-cp312-*.whl", "sortedcontainers-*.whl"):
                whl = sorted(glob.glob(str(WHEELS / pat)))[-1]
                with zipfile.ZipFile(whl) as z:
                    z.extractall(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:  # somebody else was faster
                shutil.rmtree(tmp, ignore_errors=True)
        except (OSError, IndexError):
            pass
    if (DEPS / "hypothesis").is_dir():
        sys.path.append(str(DEPS))
    else:
        sys.path.append(FALLBACK)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__, hypothesis.__file__)
