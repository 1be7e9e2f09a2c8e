import sys

from .core import main

sys.setrecursionlimit(20000)
sys.exit(main(sys.argv[1:]))
