#!/usr/bin/env python3
"""Compiles the driver (the checks do so themselves when it is not there)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import build
print(build.driver())
