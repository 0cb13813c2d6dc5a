#!/usr/bin/env python3
"""Builds the analysis tools (each check also does so on demand)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import tools
tools.extractor()
if os.path.exists(os.path.join(tools.VERIF, "analyzer", "main.rs")):
    tools.analyzer()
print("ok")
