#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property of KerrGeoPy from the sources in /repo."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kgv.driver import main
sys.exit(main(sys.argv[1:]))
