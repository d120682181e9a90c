#!/opt/venv/bin/python
# -*- coding: utf-8 -*-
import os, sys
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '2')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vx import run
if __name__ == '__main__':
    sys.exit(run.main(sys.argv[1], sys.argv[2:]))
