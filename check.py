#!/usr/bin/env python3
"""check.py PROPERTY  - decide one property: exhaustive TLC run of its model, then TLC validation of
traces recorded from the code in /repo.  Exit 0 held / 1 VIOLATION / 2 error of the check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vrun
sys.exit(vrun.main(sys.argv[1:]))
