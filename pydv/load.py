import importlib
import os
import glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_contracts(prop):
    import sys
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', prop.lower() + '*.py'))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
