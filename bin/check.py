#!/usr/bin/env python3
"""check.py <property id>: decides one property. VERIF_SEED and VERIF_TIER select the random choices and the depth."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
import checks

if __name__ == '__main__':
    prop = sys.argv[1]
    sys.exit(lib.run_check(prop, checks.CHECKS[prop]))
