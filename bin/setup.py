#!/usr/bin/env python3
"""Offline set-up: compile the library under test once (every check rebuilds it if /repo changed) and parse the specifications."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import build
print(build.library()[0])
