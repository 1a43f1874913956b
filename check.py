"Usage: python3 check.py <property id>"
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from analysis.framework import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
