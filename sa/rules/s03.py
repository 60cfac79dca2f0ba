"""S03: schemas match the ASN.1 modules of their standards."""
import json
import os
from ..model import ClassInfo, Unk
from ..schema import Norm

RULE = ('The normal form of every structure, choice, collection and string/primitive type (components in order, component types '
        'up to structural equality, tagging as (class, number, explicit/implicit), optionality, default value, own tag and class, '
        'native family) equals the normal form in the oracle.')
EXPLANATION = ('All _fields/_alternatives/_child_spec tables, as they stand after module initialisation, are constant-propagated, '
               'normalised and compared with sa/oracle/s03.json, which was reviewed against the ASN.1 modules of the RFCs. Component '
               'types are compared by name or, when they differ, by structural equality.')
ASSUMPTIONS = ['the oracle is right (reviewed by hand against RFC 2315, 2986, 3161, 3279, 3281/5755, 3447/8017, 4055, 4998, 5083, 5084, '
               '5126, 5280, 5544, 5652, 5915, 5958, 6010, 6960, 7292, 7633, 8018; leniencies listed in DESIGN.md)',
               'types the oracle does not list are additions and not judged']
ORACLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle', 's03.json')


class Compare(object):
    def __init__(self, ctx, oracle):
        self.ctx = ctx
        self.p = ctx.prog
        self.n = Norm(self.p)
        self.o = oracle
        self.by = {c.qual: c for c in self.p.classes()}
        self.memo = {}

    def conforms(self, t, ref, seen=()):
        """Does the type t found in the source stand for the oracle's type `ref` ('@module.Name')?"""
        if isinstance(t, Unk):
            return None
        if not isinstance(t, ClassInfo):
            return t == ref
        if not isinstance(ref, str) or not ref.startswith('@'):
            return False
        q = ref[1:]
        if t.qual == q:
            return True
        key = (t.qual, q)
        if key in seen:
            return True
        if key not in self.memo:
            w = self.o.get(q)
            if w is None:
                self.memo[key] = False
            else:
                self.memo[key] = not self.diff(t, q, seen + (key,))
        return self.memo[key]

    def diff(self, c, q, seen=()):
        """List of (part, message): how class c differs from the oracle's type q."""
        want = self.o[q]
        got = self.n.sig(c)
        out = []
        reg, wreg = c.get('_map'), want.get('reg')
        if got['kind'] != want['kind']:
            out.append(('kind', 'is a %s instead of a %s' % (got['kind'], want['kind'])))
            return out
        if got['base'] != want['base'] and not (isinstance(c, ClassInfo) and c.issub(want['base'])):
            out.append(('base', 'is a kind of %s instead of %s' % (got['base'], want['base'])))
        for k in ('tag', 'class_', 'explicit', 'implicit'):
            g = got[k]
            if isinstance(g, Unk):
                self.ctx.undec('%s.%s' % (c.qual, k))
                continue
            if g != want[k] and not (k == 'class_' and not g and not want[k]):
                out.append((k, '%s is %r instead of %r' % (k, g, want[k])))
        a, b = c.get('_map'), None
        d = self.by.get(q)
        if d is not None and d is not c:
            b = d.get('_map')
            if isinstance(b, dict) and (not isinstance(a, dict) or any(a.get(k) != v for k, v in b.items())):
                out.append(('registry', 'does not use the identifiers of %s' % q))
        if 'fields' in want:
            fs = got['fields']
            if isinstance(fs, Unk):
                self.ctx.undec('components of %s' % c.qual)
                return out
            self.fields(c, fs, want['fields'], out, seen)
        if 'child' in want:
            r = self.conforms(got['child'], want['child'], seen) if got['child'] is not None or want['child'] is not None else True
            if r is None:
                self.ctx.undec('element type of %s' % c.qual)
            elif not r:
                out.append(('element', 'holds %s instead of %s' % (getattr(got['child'], 'qual', got['child']), want['child'])))
        if 'children' in want:
            g = got['children']
            if len(g) != len(want['children']) or not all(self.conforms(x, y, seen) for x, y in zip(g, want['children'])):
                out.append(('elements', 'concatenates %s instead of %s' % ([getattr(x, 'qual', x) for x in g], want['children'])))
        return out

    def fields(self, c, got, want, out, seen):
        gn, wn = [f[0] for f in got], [f[0] for f in want]
        if gn != wn:
            miss, extra = [x for x in wn if x not in gn], [x for x in gn if x not in wn]
            if miss or extra:
                out.append(('components', 'lacks %s and adds %s' % (miss, extra) if miss and extra else 'lacks %s' % miss if miss else 'adds %s' % extra))
            else:
                if self.n.kind(c) not in ('Choice',):
                    out.append(('order', 'orders its components %s instead of %s' % (gn, wn)))
        gd = {f[0]: f for f in got}
        for name, wt, wp in want:
            if name not in gd:
                continue
            _, t, prm = gd[name]
            if not seen:
                self.ctx.count('components')
            r = self.conforms(t, wt, seen)
            if r is None:
                self.ctx.undec('%s.%s' % (c.qual, name))
            elif not r:
                out.append(('%s type' % name, 'component %s is %s instead of %s' % (name, getattr(t, 'qual', t), wt)))
            for k in sorted(set(prm) | set(wp)):
                g, w = prm.get(k), wp.get(k)
                if isinstance(g, Unk):
                    self.ctx.undec('%s.%s %s' % (c.qual, name, k))
                    continue
                if isinstance(g, ClassInfo):
                    if self.conforms(g, w or '', seen):
                        continue
                    g = g.qual
                if k == 'default' and isinstance(t, ClassInfo) and self.same_default(t, g, w):
                    continue
                if g != w:
                    out.append(('%s %s' % (name, k), 'component %s has %s %r instead of %r' % (name, k, g, w)))

    def same_default(self, t, a, b):
        return a == b and type(a) == type(b) or (a in ((), []) and b in ((), []))


def check(ctx):
    oracle = json.load(open(ORACLE))
    cmp_ = Compare(ctx, oracle)
    for q, want in sorted(oracle.items()):
        c = cmp_.by.get(q)
        if c is None or not isinstance(c, ClassInfo):
            # re-exported or moved: found under its own module's namespace, or structurally equal somewhere
            mod, name = q.split('.', 1)
            m = ctx.prog.modules.get(mod)
            c = m.env.get(name) if m is not None else None
        if not isinstance(c, ClassInfo):
            if q.split('.')[-1].startswith('_'):
                continue
            ctx.report('missing %s' % q, q, 'the type %s is gone' % q)
            continue
        ctx.count('types')
        for part, msg in cmp_.diff(c, q):
            ctx.report('%s %s' % (q, part), c.where, '%s %s' % (q, msg))
        if want['kind'] != 'Primitive':
            ctx.count('constructed_types')
            ctx.sample('type', '%s: %s' % (q, ', '.join(f[0] for f in want['fields']) if 'fields' in want else want.get('child', '')), cap=60)
    ctx.need('types', 300)
    ctx.need('components', 400)
