"""Write sa/oracle/*.json from a tree whose definitions were reviewed against the standards (see DESIGN.md).

Run by hand after a review, never by a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from sa.model import *
from sa.schema import Norm, tojson
p = program()
n = Norm(p)
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'oracle')

reg = {}
for c in p.classes():
    m = c.attrs.get('_map')
    if isinstance(m, dict) and m:
        reg[c.qual] = {'base': n.core_base(c), 'size': c.get('_size') if n.core_base(c) == 'BitString' else None,
                       'entries': sorted(([k if isinstance(k, int) else str(k), v] for k, v in m.items()), key=str)}
core = p.modules['core'].env
tags = {c.name: c.get('tag') for c in p.modules['core'].classes if isinstance(c.get('tag'), int)}
uni = {str(k): v.name for k, v in core['_UNIVERSAL_SPECS'].items()}
s02 = {'registries': reg, 'universal_tags': tags, 'universal_types': uni,
       'class_names': {str(k): v for k, v in core['CLASS_NUM_TO_NAME_MAP'].items()},
       'class_nums': {str(k): v for k, v in core['CLASS_NAME_TO_NUM_MAP'].items()},
       'method_names': {str(k): v for k, v in core['METHOD_NUM_TO_NAME_MAP'].items()},
       'oid_names': None}
json.dump(s02, open(os.path.join(D, 's02.json'), 'w'), indent=0, sort_keys=True)

sch = {}
for c in p.classes():
    if not n.is_type(c):
        continue
    sch[c.qual] = tojson(n.sig(c))
json.dump(sch, open(os.path.join(D, 's03.json'), 'w'), indent=0, sort_keys=True)

from sa import selector as S
s04 = {}
sp = Program()
for c in sp.classes():
    for i, name in S.open_components(c):
        S.prepare(sp, c)
        path, t, other = S.table(sp, c, i)
        rows = []
        for k, v in t.items():
            assert isinstance(v, tuple) and not isinstance(k, tuple), (c, k, v)
            rows.append([k, tojson(v[0]) if v[0] is not None else None, tojson(v[1]) if v[1] is not None else None])
        s04['%s %s' % (c.qual, name)] = {'selector': list(path) if path else None, 'rows': sorted(rows, key=str)}
json.dump(s04, open(os.path.join(D, 's04.json'), 'w'), indent=0, sort_keys=True)
print(len(reg), len(sch), len(s04))
