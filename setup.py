#!/usr/bin/env python3
"""Builds the IR reader (each check also builds it when missing)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.ir import irdump_path

print(irdump_path())
