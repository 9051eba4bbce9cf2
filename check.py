#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.report import main
sys.exit(main(sys.argv))
