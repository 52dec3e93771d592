"""Development aid: run the repository's own tests through the encoder (hooks on, no symbols)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
REPO = os.environ.get("SX_REPO", "/repo")
os.chdir(REPO)
sys.path.insert(0, REPO)
from sx import loader, core
loader.install({"snuba_sdk": (REPO, True), "parsimonious": ("/opt/venv/lib/python3.12/site-packages", False)})
core.set_current(core.Engine())
import pytest
sys.exit(pytest.main(["-q", "-x" if "-x" in sys.argv else "-q", "-p", "no:cacheprovider", "tests"] ))
