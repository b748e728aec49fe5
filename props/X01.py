"""X01: arguments and process-wide state are left as they were.

Every contract of the other properties is run again with its postconditions replaced by the frame condition
of each call: no array, table, list or dictionary reachable from the arguments is written, and numpy's error
state, its global generator, pandas options and the warnings filters end as they began."""
import inspect
import os
from pyvc import run
from pyvc.ctx import Contract

FRAME = True
EXCLUDED = {'cleanfreq'}          # documented to adjust the index of the object it is given
CONTRACTS = []

for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    _id = _f[:-3]
    if _f.endswith('.py') and _id != 'X01' and _f[0].isupper():
        for _c in run.load_props(_id).CONTRACTS:
            if any(getattr(g, '__name__', '') in EXCLUDED for g in _c.functions) or not (_c.functions or 'cx.call' in inspect.getsource(_c.fn)):
                continue
            _only_raises = 'cx.call' not in inspect.getsource(_c.fn) and 'cx.raises' in inspect.getsource(_c.fn)     # no normal return to prove
            _d = Contract(_c.fn, _c.functions, mode='bounded' if _only_raises else _c.mode, samples=30 if _c.samples is None else min(30, _c.samples), sym_s=_c.sym_s, name='%s.%s' % (_id, _c.name))
            _d.doc = 'no call in "%s" writes its arguments or process-wide state' % _d.name
            CONTRACTS.append(_d)
