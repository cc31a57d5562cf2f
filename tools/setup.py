#!/usr/bin/env python3
"""Builds the harness once, to see that everything is there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import pv
pv.build()
print("built", pv.BIN)
