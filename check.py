#!/usr/bin/env python3
"""python3 check.py ID [--thorough]: decides one property on /repo's source."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import registry  # noqa: E402

if __name__ == "__main__":
    registry.main(sys.argv[1:])
