import sys
_Z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _Z not in sys.path:
    sys.path.append(_Z)
