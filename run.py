#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]      run a check
run.py --replay <file>                      re-run one saved case

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself failed.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import boot  # noqa: E402

boot.reexec()
boot.paths()
from harness import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
