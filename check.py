#!/usr/bin/env python3
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":  # same numbering, same order, on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
from vf import check
check.main()
