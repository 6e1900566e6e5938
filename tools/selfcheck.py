"""setup: checks that the tool chain the checks need is present"""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3, numpy
sys.path.insert(0, R)
from pydv import symt, run
os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, sklearn, mpi4py, Cython'])
print('ok', z3.get_version_string(), numpy.__version__)
