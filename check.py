#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py --replay <file>"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner
from plans import PLANS
if __name__ == "__main__":
    runner.main(PLANS)
