#!/usr/bin/env python3
"""Checks that the tools the analyser needs are there."""
import ctypes
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
import build  # noqa: E402
import llvmc  # noqa: E402,F401

for t in (build.CLANG, build.OPT, build.LINK):
    if not os.access(t, os.X_OK):
        sys.exit("missing " + t)
print("ok")
