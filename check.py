#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from cv.run import main  # noqa: E402

sys.exit(main(sys.argv))
