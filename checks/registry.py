"""Which check module decides which property."""
import os
import re

PROPERTY_OF = {}
_here = os.path.dirname(os.path.abspath(__file__))
for _f in sorted(os.listdir(_here)):
    if _f.startswith("c_") and _f.endswith(".py"):
        with open(os.path.join(_here, _f)) as _s:
            _m = re.search(r'^PROPERTY = "(\w+)"', _s.read(), re.M)
        if _m:
            PROPERTY_OF[_f[:-3]] = _m.group(1)
