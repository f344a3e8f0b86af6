"""Checks that the sandbox can run the simulator: interpreter, packages, repository sources. Builds nothing outside /verif."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import core  # noqa: E402
sys.path.insert(0, core.SRC)
from sim import gen  # noqa: E402
gen.import_check()
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
print("simulator ready; repository:", core.REPO)
