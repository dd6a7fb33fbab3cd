"""Setup: nothing to build; check that the planner and hypothesis import."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot  # noqa: E402

boot.reexec()
boot.paths()
import hypothesis  # noqa: E402
import xpress  # noqa: E402

import terragraph_planner.optimization.topology_optimization as t  # noqa: E402

assert t.__file__.startswith(boot.REPO), t.__file__
assert xpress.__file__.startswith(boot.VERIF), xpress.__file__
print("hypothesis", hypothesis.__version__, "planner", os.path.dirname(t.__file__))
