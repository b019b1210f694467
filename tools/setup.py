#!/usr/bin/env python3
"""setup_cmd: build the symbolic executor (checks build it as well when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units
units.build_engine()
units.native_obj()
