#!/opt/venv/bin/python
"""Nothing to build: confirms offline that the interpreter and Hypothesis can be loaded."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env
env._hypothesis()
import hypothesis
print("ready:", sys.version.split()[0], "hypothesis", hypothesis.__version__, "code under test:", env.REPO)
