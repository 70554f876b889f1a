"""Property id -> module under mc/props."""
import os
import re

MODULES = {}
for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))):
    _m = re.match(r'(p(\d+)_\w+)\.py$', _f)
    if _m:
        MODULES['P' + _m.group(2)] = _m.group(1)
