#!/usr/bin/env python3-vt
"""warm build of the symbolic compiler (every check can also build it itself)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build
print(build.sym_circom())
