#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only NAME]"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default='quick')
ap.add_argument('--only')
a = ap.parse_args()
from symx import runner
sys.exit(runner.main(a.prop, a.tier, a.only))
