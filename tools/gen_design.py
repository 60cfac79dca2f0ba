import importlib, json, os, re, sys, textwrap
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, 'tools')]
from design_parts import HEAD, P, TAIL
man = json.load(open(os.path.join(R, 'MANIFEST.json')))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
tech = json.load(open(os.path.join(R, 'tools', 'techniques.json')))
seeds = {}
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((d, m['what_it_breaks'], m['needs']))
wrap = lambda t, w=150, i='': '\n'.join(textwrap.wrap(t, w, subsequent_indent=i, break_long_words=False, break_on_hyphens=False))
out = [HEAD, '\n## The properties and how each is decided\n']
claimed = dict((c['property'], c) for c in man['checks'])
for p in props:
    i = p['id']
    if i not in claimed:
        continue
    m = importlib.import_module('sa.rules.' + i.lower())
    b = P[i]
    out.append('### %s - %s\n' % (i, p['title']))
    out.append(wrap(p['statement']) + '\n')
    out.append(wrap('* **Method**: ' + tech[i]['technique'] + '.', i='  '))
    out.append(wrap('* **What is analysed**: ' + m.EXPLANATION.rstrip('.') + '.', i='  '))
    out.append(wrap('* **Rule (oracle)**: ' + m.RULE.rstrip('.') + '.', i='  '))
    out.append(wrap('* **Bounds and cost**: ' + b[0] + '. ' + (tech[i].get('note') or '') + '.', i='  '))
    out.append(wrap('* **Assumes**: ' + ('; '.join(getattr(m, 'ASSUMPTIONS', [])) or 'nothing beyond the interpreter') + '.', i='  '))
    out.append(wrap('* **Why tests cannot settle it**: ' + b[1] + '.', i='  '))
    for s in seeds.get(i, []):
        out.append(wrap('* **Planted bug** `%s` (caught): %s; needs %s.' % s, i='  '))
    out.append('')
tail = TAIL
for n in man['not_applicable']:
    title = [p['title'] for p in props if p['id'] == n['property']][0]
    tail += wrap('* %s (%s): %s.' % (n['property'], title, n['reason'].rstrip('.')), i='  ') + '\n'
tail += '\n## Planted bugs\n\nEach lies in `seeded/<id>/` with its patch and demonstration. All of them are caught by the check of the property they were written for:\n\n'
tail += '| property | bugs |\n|---|---|\n' + '\n'.join('| %s | %s |' % (i, ', '.join('`%s`' % s[0] for s in seeds[i])) for i in sorted(seeds)) + '\n'
out.append(tail)
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
