#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample on the unpatched code of /repo"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
sys.exit(runner.replay(sys.argv[1]))
