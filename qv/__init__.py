"""Solver-based checking machinery for QNET (see DESIGN.md)."""
import os
import sys
sys.dont_write_bytecode = True
REPO = os.environ.get('QV_REPO', '/repo')
_src = os.path.join(REPO, 'src')
if _src not in sys.path:
    sys.path.insert(0, _src)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)     # at the END: only z3 is taken from there
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
