#!/usr/bin/env python3
"""Warms the build cache: compiles every check once. Nothing later depends on it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from props import PROPS
for pid in sorted(PROPS):
    r = check.Run(pid, "quick", 1)
    try:
        r.compile()
    finally:
        r.close()
print("built", len(PROPS), "checks")
