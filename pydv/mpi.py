"""Assumed contract of mpi4py: only named constants; communicators are passed in
by the contracts (contracts/mpilib.py)."""
from .npshim import Missing


class Const:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'MPI.' + self.name


def install(ns, session):
    m = ns('mpi4py')
    mm = ns('mpi4py.MPI')
    m.__dict__['MPI'] = mm
    for n in ('FLOAT', 'DOUBLE', 'LONG', 'INT', 'SUM'):
        mm.__dict__[n] = Const(n)
    mm.__dict__['COMM_WORLD'] = Missing('MPI.COMM_WORLD')
