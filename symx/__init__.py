import sys
sys.dont_write_bytecode = True
_p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _p not in sys.path:
    sys.path.append(_p)
