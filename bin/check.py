#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decides one property (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import core
sys.exit(core.main(sys.argv[1:]))
