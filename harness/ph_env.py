# -*- coding: utf-8 -*-
"""Import phyem headless (it selects TkAgg at import) and small helpers for drivers."""
import json
import os
import sys
import warnings

import matplotlib
matplotlib.use('Agg')
matplotlib.use = lambda *a, **k: None
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True


def load():
    with open(sys.argv[1]) as f:
        return json.load(f)


def store(obj):
    tmp = sys.argv[2] + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, default=_default)
    os.replace(tmp, sys.argv[2])


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return str(o)
