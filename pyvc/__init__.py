import sys as _s
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    _s.path.append(_P)
    import z3
    _s.path.remove(_P)
