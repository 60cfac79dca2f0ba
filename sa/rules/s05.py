"""S05: the next element's class and tag decide which component or alternative it is."""
from ..model import Program, ClassInfo, Unk, _Raise, _Unknown
from ..schema import Norm
from ..selector import prepare, open_components

RULE = ('With leading(T, tagging) = the set of (class, tag) pairs an element of that component can start with, computed from the '
        'schemas: alternatives of a choice are disjoint; members of a set are disjoint and never open; an optional or defaulted '
        'component is disjoint from every component up to and including the next mandatory one; no choice or open type is implicitly '
        'tagged; and the identification tables the decoder prepares from the schema hold exactly these pairs.')
EXPLANATION = ('First-set computation over all schemas found by constant propagation, compared with the tables that the decoder\'s '
               'own setup code (evaluated by constant propagation) builds.')
ASSUMPTIONS = ['types supplied by user code are not judged']

ANY = ('any', 'any')


class First(object):
    def __init__(self, prog):
        self.p, self.n = prog, Norm(prog)

    def leading(self, t, prm, seen=()):
        ex = prm.get('explicit') or []
        if ex:
            return frozenset([tuple(ex[-1])])
        if prm.get('implicit'):
            return frozenset([tuple(prm['implicit'])])
        if not isinstance(t, ClassInfo):
            return frozenset([ANY])
        s = self.n.sig(t)
        if s['explicit']:
            return frozenset([tuple(s['explicit'][-1])])
        if s['implicit']:
            return frozenset([tuple(s['implicit'])])
        if s['kind'] == 'Choice':
            if t in seen or isinstance(s['fields'], Unk):
                return frozenset([ANY])
            out = set()
            for _, a, ap in s['fields']:
                out |= self.leading(a, ap, seen + (t,))
            return frozenset(out)
        if s['kind'] in ('Any', 'Concat') or s['tag'] is None:
            return frozenset([ANY])
        return frozenset([(s['class_'] or 0, s['tag'])])

    def clash(self, a, b):
        if ANY in a or ANY in b:
            return ANY
        x = a & b
        return sorted(x)[0] if x else None


def open_type(f, t):
    return not isinstance(t, ClassInfo)


def check(ctx):
    p = Program()
    n = First(p)
    for c in p.classes():
        if not n.n.is_type(c):
            continue
        s = n.n.sig(c)
        if s['kind'] not in ('Sequence', 'Set', 'Choice'):
            continue
        fs = s['fields']
        if isinstance(fs, Unk):
            ctx.undec(c.qual)
            continue
        if not fs:
            continue
        ctx.count('structures')
        lead = []
        for name, t, prm in fs:
            ctx.count('components')
            L = n.leading(t, prm)
            lead.append(L)
            if isinstance(t, ClassInfo) and prm.get('implicit') and not prm.get('explicit') and n.n.kind(t) in ('Choice', 'Any'):
                ctx.report('implicit %s.%s' % (c.qual, name), c.where, 'component %s of %s is an implicitly tagged %s' % (name, c.qual, n.n.kind(t).lower()))
            for tag in list(prm.get('explicit') or []) + ([prm['implicit']] if prm.get('implicit') else []):
                if tag[0] not in (0, 1, 2, 3) or not isinstance(tag[1], int) or tag[1] < 0:
                    ctx.report('tag %s.%s' % (c.qual, name), c.where, 'component %s of %s has the impossible tag %r' % (name, c.qual, tag))
        opens = set(x for _, x in open_components(c))
        if s['kind'] == 'Sequence':
            sequence(ctx, n, c, fs, lead, opens)
        else:
            what = 'alternatives' if s['kind'] == 'Choice' else 'members'
            for i in range(len(fs)):
                if ANY in lead[i] and len(fs) > 1:
                    ctx.report('open %s.%s' % (c.qual, fs[i][0]), c.where, '%s %s of %s can start with any tag' % (what[:-1], fs[i][0], c.qual))
                for j in range(i + 1, len(fs)):
                    ctx.count('pairs')
                    x = n.clash(lead[i], lead[j])
                    if x is not None and x is not ANY:
                        ctx.report('clash %s %s %s' % (c.qual, fs[i][0], fs[j][0]), c.where,
                                   '%s %s and %s of %s both start with class %s tag %s' % (what, fs[i][0], fs[j][0], c.qual, x[0], x[1]))
        prepared(ctx, p, n, c, s, fs, lead)
    ctx.need('structures', 150)
    ctx.need('pairs', 300)


def sequence(ctx, n, c, fs, lead, opens):
    for i, (name, t, prm) in enumerate(fs):
        if not (prm.get('optional') or 'default' in prm):
            continue
        for j in range(i + 1, len(fs)):
            ctx.count('pairs')
            nm, t2, p2 = fs[j]
            x = n.clash(lead[i], lead[j])
            if x is ANY and ANY in lead[j] and ANY not in lead[i] and (p2.get('optional') or 'default' in p2):
                # an optional open component last: the typed optional one before it takes precedence by its tag
                x = None if not any(not (q.get('optional') or 'default' in q) for _, _, q in fs[j:]) and nm in opens else x
            if x is not None:
                ctx.report('clash %s %s %s' % (c.qual, name, nm), c.where,
                           'optional component %s of %s and %s, which can follow it, %s' %
                           (name, c.qual, nm, 'can not be told apart (open type)' if x is ANY else 'both start with class %s tag %s' % x))
            if not (p2.get('optional') or 'default' in p2):
                break


def prepared(ctx, p, n, c, s, fs, lead):
    try:
        prepare(p, c)
    except _Raise as e:
        ctx.report('setup %s' % c.qual, c.where, 'preparing %s fails: %s' % (c.qual, e))
        return
    except _Unknown:
        ctx.undec('preparation of %s' % c.qual)
        return
    if s['kind'] == 'Choice':
        m = c.get('_id_map')
        if not isinstance(m, dict):
            ctx.undec('_id_map of %s' % c.qual)
            return
        want = {}
        for i, L in enumerate(lead):
            for t in L:
                want[t] = i
        got = {k: v for k, v in m.items()}
        for t in sorted(set(want) | set(got), key=str):
            ctx.count('table_entries')
            if t is ANY or ANY == t:
                continue
            if want.get(t) != got.get(t):
                ctx.report('idmap %s %s' % (c.qual, t), c.where, 'the decoder takes an element of class %s tag %s of %s for %s instead of %s' % (
                    t[0], t[1], c.qual, fs[got[t]][0] if t in got else 'nothing', fs[want[t]][0] if t in want else 'nothing'))
        return
    ids = c.get('_field_ids')
    if s['kind'] == 'Set':
        if not isinstance(ids, dict):
            ctx.undec('_field_ids of %s' % c.qual)
            return
        got = {v: k for k, v in ids.items()}
    else:
        if not isinstance(ids, list):
            ctx.undec('_field_ids of %s' % c.qual)
            return
        got = dict(enumerate(ids))
    for i, L in enumerate(lead):
        ctx.count('table_entries')
        t = fs[i][1]
        if ANY in L or len(L) > 1 or (isinstance(t, ClassInfo) and n.n.kind(t) == 'Choice' and not fs[i][2].get('explicit') and not n.n.sig(t)['explicit']):
            if s['kind'] == 'Set':
                ctx.report('setmember %s.%s' % (c.qual, fs[i][0]), c.where, 'member %s of the set %s is a choice or open type, which sets can not identify' % (fs[i][0], c.qual))
            continue
        if got.get(i) != list(L)[0]:
            ctx.report('fieldid %s.%s' % (c.qual, fs[i][0]), c.where, 'the decoder expects component %s of %s under %r instead of %r' % (fs[i][0], c.qual, got.get(i), list(L)[0]))
