"""Writes MANIFEST.json from the rule modules present and the not-applicable reasons below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(R, 'tools', 'techniques.json')))
NA = {
 'N01': 'quantifies over the byte-level result of encoding every value; M01, M03, M08, P03 and D01 decide the structural parts, the remaining arithmetic over unbounded content is not bounded by a static argument in reach',
 'N02': 'numeric exactness of conversions over unbounded integers, bit strings, dates and text; needs value reasoning (solver or execution), not dataflow',
 'N03': 'equality of prepared strings over all Unicode text is a property of character tables and string algorithms at run time',
 'N04': 'sizes are numeric functions of unbounded key contents; which component and which digest an accessor uses is decided by S08',
 'N05': 'losslessness of IRI, IDNA and punycode conversion over all text is a runtime quantity',
 'N06': 'running time; a static cost bound would need ranking functions over data-dependent recursion out of reach here',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(R, 'sa', 'rules', i.lower() + '.py')):
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m sa.check %s quick' % i, 'thorough_cmd': 'python3 -m sa.check %s thorough' % i,
                       'technique': t['technique'], 'level': 'other', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'no check in place yet'})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
