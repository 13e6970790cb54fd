"""Check that what the checks need is present (nothing has to be built)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from rv import core

core.setup_import()
import numpy, scipy, pandas, stl, multiprocess  # noqa: F401,E401

os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
print("ready:", numpy.__version__, scipy.__version__, pandas.__version__)
