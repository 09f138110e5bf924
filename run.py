#!/opt/venv/bin/python
"""Entry point of every check: run.py --property Cxx [--tier quick|thorough] [--replay FILE]."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("TZ") != "UTC":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["TZ"] = "UTC"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in list(os.environ):
        if k.startswith("KASA_"):
            del os.environ[k]
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
from kmon import net, vloop  # noqa: E402

vloop.install_clock()
net.install()
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import kasa  # noqa: E402

assert os.path.realpath(kasa.__file__).startswith(os.path.realpath(REPO) + "/"), kasa.__file__
from kmon.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
