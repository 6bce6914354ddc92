#!/usr/bin/env python3
"""Builds the Java overrides and the harness once, so that the first check starts warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
print(build(main=True))
