"""Import paths and type facts shared by all contracts."""
import os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRM_REPO", "/repo")
for p in (VERIF, os.path.join(VERIF, "stubs"), REPO):
    if p in sys.path:
        sys.path.remove(p)
sys.path[:0] = [REPO, os.path.join(VERIF, "stubs"), VERIF]
if "/opt/venv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
