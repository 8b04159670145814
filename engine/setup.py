#!/usr/bin/env python3-vt
"""Warms the build directories (dependencies of the harness crate and the crate under test); the checks rebuild what they need anyway."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drive
drive.build(['c01'])
import numpy, z3
print('ready: z3', z3.get_version_string())
