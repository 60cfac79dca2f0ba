"""S02: registries carry the names and numbers of their standards."""
import json
import os
from ..model import ClassInfo, Unk

RULE = ('The constant-propagated value of every registry (object identifiers, enumerations, named bits), of the class/method number '
        'tables and of every universal tag after all modules have been initialised contains each reviewed (number, name) pair of the '
        'oracle; no table literal gives one number two different names.')
EXPLANATION = ('Module initialisation (including registrations made by other modules) is evaluated by constant propagation and the '
               'resulting tables are compared entry by entry with sa/oracle/s02.json, which was reviewed against the standards.')
ASSUMPTIONS = ['the oracle, reviewed entry by entry against the RFCs, X.500/X.680 and vendor registries, is right',
               'identifiers the oracle does not list are additions and not judged']
ORACLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle', 's02.json')
# 1.2.840.113583.1.1.5 is registered under either name, depending on whether the PDF module is loaded
ALSO = {('x509.KeyPurposeId', '1.2.840.113583.1.1.5'): ('adobe_authentic_documents_trust', 'pdf_signing')}


def check(ctx):
    p = ctx.prog
    o = json.load(open(ORACLE))
    byname = {c.qual: c for c in p.classes()}
    for q, spec in sorted(o['registries'].items()):
        c = byname.get(q)
        m = c.get('_map') if c is not None else None
        if not isinstance(m, dict):
            # moved or renamed: any registry of the same base that has most of the entries
            best = None
            want = set((k, v) for k, v in map(tuple, spec['entries']))
            for d in p.classes():
                t = d.get('_map')
                if isinstance(t, dict) and t:
                    n = sum(1 for k, v in want if t.get(k) == v)
                    if n * 2 > len(want) and (best is None or n > best[0]):
                        best = (n, d)
            if best is None:
                if q.split('.')[-1].startswith('_'):
                    continue
                ctx.report('missing %s' % q, q, 'the registry %s (%d identifiers) is gone' % (q, len(want)))
                continue
            c = best[1]
            m = c.get('_map')
        ctx.count('registries')
        owner = c.lookup('_map')[1]
        for k, v in spec['entries']:
            ctx.count('entries')
            ok = ALSO.get((q, k), (v,))
            got = m.get(k)
            if isinstance(got, Unk):
                ctx.undec('%s %s' % (q, k))
            elif got is None:
                other = [x for x, n in m.items() if n == v]
                ctx.report('entry %s %s' % (q, k), owner.where, '%s does not recognise %s (%s)%s' % (q, k, v, '; it lists %s under that name' % ', '.join(map(str, other)) if other else ''))
            elif got not in ok:
                ctx.report('entry %s %s' % (q, k), owner.where, '%s names %s %r; its standard names it %r' % (q, k, got, v))
        listed = set(k for k, v in spec['entries'])
        for k, v in m.items():
            if k in listed or isinstance(v, Unk):
                continue
            ctx.count('added_entries')
            own = [x for x, n in spec['entries'] if n == v]
            if own:
                ctx.report('entry %s %s' % (q, k), owner.where, '%s names %s %r; the standard gives that name to %s' % (q, k, v, ', '.join(map(str, own))))
        if spec['size']:
            sz = c.get('_size')
            if isinstance(sz, int) and sz < max(k for k, v in spec['entries'] if isinstance(k, int)) + 1:
                ctx.report('size %s' % q, c.where, '%s encodes only %d bits' % (q, sz))
        ctx.sample('registry', '%s: %d identifiers compared' % (q, len(spec['entries'])), cap=80)
    core = p.modules['core']
    corecls = {c.name: c for c in core.classes}
    for n, t in sorted(o['universal_tags'].items()):
        c = corecls.get(n)
        if c is None:
            continue
        ctx.count('universal_tags')
        if c.get('tag') != t:
            ctx.report('tag %s' % n, c.where, 'core.%s has universal tag %r; X.680 assigns %d' % (n, c.get('tag'), t))
    uni = None
    for name, v in core.env.items():
        if isinstance(v, dict) and v and all(isinstance(k, int) for k in v) and all(isinstance(x, ClassInfo) for x in v.values()):
            uni = v
    if uni is None:
        ctx.undec('table of universal types')
    else:
        for k, n in sorted(o['universal_types'].items(), key=lambda x: int(x[0])):
            ctx.count('universal_types')
            c = uni.get(int(k))
            if c is None or c.get('tag') != int(k) or (c.name != n and not c.issub(n)):
                ctx.report('universal %s' % k, core.path, 'universal tag %s decodes as %s instead of %s' % (k, getattr(c, 'qual', c), n))
    for var, want in (('CLASS_NUM_TO_NAME_MAP', o['class_names']), ('CLASS_NAME_TO_NUM_MAP', o['class_nums']), ('METHOD_NUM_TO_NAME_MAP', o['method_names'])):
        t = core.env.get(var)
        if not isinstance(t, dict):
            ctx.undec(var)
            continue
        got = {str(k): v for k, v in t.items()}
        for k, v in want.items():
            ctx.count('class_and_method_numbers')
            if got.get(k) != v:
                ctx.report('%s %s' % (var, k), core.path, '%s gives %r for %s instead of %r' % (var, got.get(k), k, v))
    for mod, line, k, a, b in p.dup_keys:
        ctx.count('duplicate_keys_examined')
        if not isinstance(a, Unk) and not isinstance(b, Unk) and a != b:
            ctx.report('dup %s %s' % (mod.name, k), '%s:%s' % (mod.path, line), 'the key %r appears twice with different values %r and %r' % (k, a, b))
    ctx.need('entries', 400)
