"""Contract registry and the operations a contract is written with.

A contract is a function of `t`; the same text is executed symbolically (every
input universally quantified; each `ensure` becomes a proof obligation) and
concretely against the real code (replay and refutation)."""
CONTRACTS = {}


class Contract:
    def __init__(self, prop, fn, name, funcs, proof, n, assumes, bounded, note, maxpaths, budget, con):
        self.prop, self.fn, self.name, self.funcs = prop, fn, name, funcs
        self.proof, self.n, self.assumes, self.bounded, self.note = proof, n, assumes, bounded, note
        self.maxpaths, self.budget, self.con = maxpaths, budget, con


def contract(prop, funcs=(), proof=True, n=60, assumes=(), bounded=None, note='', maxpaths=400, budget=60, con=True,
             name=None):
    """funcs: functions of /repo under contract; proof: decided symbolically;
    bounded: text stating the bound when only the concrete evaluation decides"""
    def deco(f):
        c = Contract(prop, f, name or f.__name__, list(funcs), proof, n, list(assumes), bounded, note, maxpaths, budget, con)
        CONTRACTS.setdefault(prop, []).append(c)
        return f
    return deco


class Reject(BaseException):
    """concrete input outside the precondition"""


TRUSTED = [
    'machine floating point is treated as exact real arithmetic in proofs (NaN/inf only as modelled special values)',
    'machine integers are treated as mathematical integers',
    'numpy, scipy, scikit-learn and mpi4py operations behave as their models in /verif/pydv (npshim, ext, skl, mpi) state',
    'the instrumentation of pydv/loader.py preserves the semantics of the executed Python subset',
]
