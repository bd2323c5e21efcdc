#!/opt/venv/bin/python
"""Entry point: python check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N] [--scale X]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
