#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import checklib
from vlib.props import REGISTRY
pid = sys.argv[1]
mod, fn, level = REGISTRY[pid]
checklib.main(pid, getattr(importlib.import_module("vlib.props." + mod), fn), level)
