"""Nothing to build: confirm that the pieces the checks need are there."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import bootstrap
bootstrap.setup()
import hypothesis
ac = bootstrap.load()
print("hypothesis", hypothesis.__version__, "active_subspaces from", os.path.dirname(ac.__file__))
