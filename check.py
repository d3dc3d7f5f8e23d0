#!/usr/bin/env python3
"check.py <property id> [quick|thorough]"
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module(f"checks.{pid.lower()}")
    sys.exit(getattr(m, pid)(tier).main())


main()
