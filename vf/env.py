"""Environment of every check: imports qldpc from /repo's working tree, and nothing else from it."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)  # z3 only; numpy etc. still resolve from the repository's own venv
warnings.filterwarnings("ignore")

import qldpc  # noqa: E402
import qldpc.codes  # noqa: E402,F401

assert os.path.realpath(qldpc.__file__) == os.path.realpath(f"{REPO}/qldpc/__init__.py"), qldpc.__file__
