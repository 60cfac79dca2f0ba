"""P04: a value is only accepted under the class, method and tag its type declares."""
from ..build import Builder, element, pieces
from ..flow import K, NONE, is_k, TooComplex

RULE = ('For every type of the library and for every shape of element that differs from the declaration in exactly one place (class, '
        'primitive/constructed form, tag; the same for each layer of explicit tagging; extra data inside an explicit tag), every path '
        'through the decoder ends in ValueError; the declared shape has a path that returns a value of the type. For a choice, the '
        'alternative selected is the one declared with that class and tag and is decoded with its own type and tagging.')
EXPLANATION = ('Abstract interpretation of the decoder with the class, method and tag of the element fixed per case and all lengths and '
               'bytes unknown; constructors, tagging normalisation and choice tables are interpreted, the element parser is replaced by '
               'the shape of the case.')
ASSUMPTIONS = ['a type is decoded through core._build', 'open types (Any) declare no class, method or tag']


def shapes(cl, m, tag, bad, constructable):
    """(label, element) that must be refused."""
    for c2 in range(4):
        if c2 != cl:
            yield 'class', element(c2, m, tag)
    for t2 in sorted(set([0, 1, tag - 1, tag + 1, tag + 32, 2 * tag + 3])):
        if t2 >= 0 and t2 != tag and t2 not in bad:
            yield 'tag', element(cl, m, t2)
    yield 'method', element(cl, 1 - m, tag)
    if m == 0 and not constructable:
        yield 'method of an indefinite-length element', element(cl, 1, tag, indef=True)
    if m == 1:
        yield 'method of an indefinite-length element', element(cl, 0, tag, indef=True)
    if m == 0 and constructable:
        for t2 in (tag + 1, tag - 1):
            if t2 not in bad:
                yield 'tag of an indefinite-length element', element(cl, 1, t2, indef=True)
        yield 'class of an indefinite-length element', element((cl + 1) % 4, 1, tag, indef=True)


class Sink(object):
    def __init__(self, ctx, b):
        self.ctx, self.b = ctx, b
        self.bad = {}

    def run(self, c, params, els):
        self.ctx.count('cases')
        try:
            return self.b.run(c, params, els)
        except TooComplex:
            self.ctx.undec('%s: %s' % (c.qual if c else 'no type', els))
            return None

    def note(self, label, c, msg, o=None):
        d = self.bad.setdefault(label, [set(), msg, o])
        d[0].add(c.qual if c is not None else '(no type)')

    def refuse(self, label, c, params, els):
        outs = self.run(c, params, els)
        for o in outs or ():
            if o.kind == 'return' and not (o.val[0] == 'const_inst' or o.val == NONE):
                self.note('accepts ' + label, c, 'an element with the wrong %s is accepted' % label, o)
                return
            if o.kind == 'raise' and o.val != 'ValueError':
                self.note('raises ' + label, c, 'an element with the wrong %s raises %s instead of ValueError' % (label, o.val), o)
                return

    def accept(self, label, c, params, els):
        outs = self.run(c, params, els)
        if outs is None:
            return []
        r = [o for o in outs if o.kind == 'return']
        if not r:
            self.note('refuses ' + label, c, 'the declared shape (%s) is refused on every path' % label)
        return r

    def flush(self):
        f = self.b.build
        for label, (names, msg, o) in sorted(self.bad.items()):
            ns = sorted(names)
            self.ctx.report('shape %s' % label, f.where,
                            '%s (%d types: %s%s)' % (msg, len(ns), ', '.join(ns[:4]), ', ...' if len(ns) > 4 else ''))


def check(ctx):
    p = ctx.prog
    b = Builder(p)
    if not b.ok():
        ctx.undec('the decoder core._build was not found')
        return
    s = Sink(ctx, b)
    choice, any_, cons = p.cls('core.Choice'), p.cls('core.Any'), p.cls('core.Constructable')
    plain = []
    for c in p.asn1_classes():
        if c is choice or c is any_:
            continue
        if c.issub(choice):
            choices(ctx, s, c)
            continue
        tag, m, cl = c.get('tag'), c.get('method'), c.get('class_') or 0
        if not isinstance(tag, int) or not isinstance(m, int) or c.get('explicit'):
            continue
        plain.append((c, tag, m, cl))
    for c, tag, m, cl in plain:
        ctx.count('types')
        ctx.sample('types', c.qual)
        bt = c.get('_bad_tag')
        bad = set(bt) if isinstance(bt, (tuple, list, set, frozenset)) else set() if bt is None else set([bt])
        con = c.issub(cons)
        s.accept('as declared', c, None, [element(cl, m, tag)])
        if con and m == 0:
            s.accept('constructed with indefinite length', c, None, [element(cl, 1, tag, indef=True)])
        for label, e in shapes(cl, m, tag, bad, con):
            s.refuse(label, c, None, [e])
    # tagging is the same code for every type: one representative per constructor and kind
    seen = set()
    for c, tag, m, cl in plain:
        bt = c.get('_bad_tag')
        sig = (c.method('__init__'), m, c.issub(cons), repr(bt))
        if sig in seen:
            continue
        seen.add(sig)
        ctx.count('representatives of tagging')
        bad = set(bt) if isinstance(bt, (tuple, list, set, frozenset)) else set() if bt is None else set([bt])
        tagged(s, c, tag, m, cl, bad, c.issub(cons))
    untyped(s)
    layers_of(s, [x for x in p.asn1_classes() if x.issub(choice) and x.get('_alternatives')][:1])
    s.flush()
    ctx.need('cases', 300)
    ctx.need('choices', 10)


def tagged(s, c, tag, m, cl, bad, con):
    for how, cn, t in ((3, 2, 3), (('application', 5), 1, 5), (('private', 0), 3, 0)):
        params = {'implicit': how}
        s.accept('as declared with an implicit tag', c, params, [element(cn, m, t)])
        for label, e in shapes(cn, m, t, bad, con):
            s.refuse(label + ' under an implicit tag', c, params, [e])
        if tag != t:
            s.refuse('tag (its own instead of the implicit one)', c, params, [element(cl, m, tag)])
    inner = element(cl, m, tag)
    for spec, layers in (({'explicit': 2}, [(2, 2)]), ({'explicit': ('application', 7)}, [(1, 7)]),
                         ({'explicit': (('context', 4), ('private', 6))}, [(2, 4), (3, 6)])):
        out = [element(lc, 1, lt) for lc, lt in reversed(layers)]
        s.accept('as declared with explicit tagging', c, spec, out + [inner])
        for i, (lc, lt) in enumerate(reversed(layers)):
            for label, e in (('class', element((lc + 1) % 4, 1, lt)), ('tag', element(lc, 1, lt + 1)), ('method', element(lc, 0, lt)),
                             ('class', element(0, 1, lt)), ('tag', element(lc, 1, max(lt - 1, 0)))):
                if (e['class'], e['method'], e['tag']) == (lc, 1, lt):
                    continue
                s.refuse('%s of an explicit tag' % label, c, spec, out[:i] + [e] + out[i + 1:] + [inner])
        for label, e in shapes(cl, m, tag, bad, con):
            s.refuse(label + ' inside an explicit tag', c, spec, out + [e])
        for i in range(len(out)):
            els = out + [inner]
            els = els[:i + 1] + [dict(els[i + 1], extra=True)] + els[i + 2:]
            s.refuse('amount of data inside an explicit tag', c, spec, els)


def untyped(s):
    """Decoding without a type, under explicit tagging."""
    inner = element(0, 0, 2)
    for spec, layers in (({'explicit': 2}, [(2, 2)]), ({'explicit': (('context', 4), ('private', 6))}, [(2, 4), (3, 6)])):
        out = [element(lc, 1, lt) for lc, lt in reversed(layers)]
        s.accept('without a type, explicit tagging', None, spec, out + [inner])
        for i, (lc, lt) in enumerate(reversed(layers)):
            for label, e in (('class', element((lc + 1) % 4, 1, lt)), ('tag', element(lc, 1, lt + 1)), ('method', element(lc, 0, lt))):
                s.refuse('%s of an explicit tag' % label, None, spec, out[:i] + [e] + out[i + 1:] + [inner])
    s.accept('without a type', None, None, [inner])
    s.refuse('tag (no universal type has it)', None, None, [element(0, 0, 99)])


def layers_of(s, cs):
    for c in cs:
        from ..schema import Norm
        ids = declared(s.ctx.prog, c)
        if not ids:
            continue
        (cl, tag), m, i = ids[0]
        for spec, layers in (({'explicit': 2}, [(2, 2)]), ({'explicit': (('context', 4), ('private', 6))}, [(2, 4), (3, 6)])):
            out = [element(lc, 1, lt) for lc, lt in reversed(layers)]
            s.accept('choice with explicit tagging', c, spec, out + [element(cl, m, tag)])
            for k, (lc, lt) in enumerate(reversed(layers)):
                for label, e in (('class', element((lc + 1) % 4, 1, lt)), ('tag', element(lc, 1, lt + 9)), ('method', element(lc, 0, lt))):
                    s.refuse('%s of an explicit tag' % label, c, spec, out[:k] + [e] + out[k + 1:] + [element(cl, m, tag)])


CLASSES = {'universal': 0, 'application': 1, 'context': 2, 'private': 3}


def tag_of(params, spec):
    """((class, tag), method) a component is written under, or None for open types and nested choices."""
    params = params or {}
    for k in ('explicit', 'implicit'):
        v = params.get(k)
        if v is None:
            continue
        if isinstance(v, int):
            v = (2, v)
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], int)):
            return None
        cl = CLASSES.get(v[0], v[0])
        return (cl, v[1]), 1 if k == 'explicit' else spec.get('method')
    if spec.get('explicit'):
        return None
    if not isinstance(spec.get('tag'), int):
        return None
    return (spec.get('class_') or 0, spec.get('tag')), spec.get('method')


def declared(p, c):
    from ..model import ClassInfo
    alts = c.get('_alternatives')
    out = []
    if not isinstance(alts, (list, tuple)):
        return None
    for i, a in enumerate(alts):
        if not isinstance(a, tuple) or len(a) < 2 or not isinstance(a[1], ClassInfo):
            return None
        t = tag_of(a[2] if len(a) > 2 else None, a[1])
        if t is not None and isinstance(t[1], int):
            out.append((t[0], t[1], i))
    return out


def choices(ctx, s, c):
    ids = declared(ctx.prog, c)
    if not ids:
        ctx.count('choices not decided')
        return
    ctx.count('choices')
    alts = c.get('_alternatives')
    whole = len(ids) == len(alts)
    used = set(x[0] for x in ids)
    own = c.get('explicit')
    if own:
        own = (own,) if isinstance(own[0], int) else own
    outer = [element(lc, 1, lt) for lc, lt in reversed(own or ())]
    for (cl, tag), m, i in ids:
        els = outer + [element(cl, m, tag), element(0, 1, 16)]
        outs = s.accept('alternative %s' % alts[i][0], c, None, els)
        got = []
        for o in outs:
            if o.val[0] != 'ref':
                continue
            ob = o.st.heap[o.val[1]]
            ch = ob.get('_choice')
            if ch is None or not is_k(ch) or not isinstance(ch[2], int) or not 0 <= ch[2] < len(alts):
                got.append(None)
                continue
            got.append(ch[2])
            alt = alts[ch[2]]
            for data, spec, tagging in o.st.mon or ():
                if data != ob.get('_contents') or spec[0] != 'cls':
                    continue
                if spec[1] is not alt[1]:
                    s.note('alternative type', c, 'alternative %s is decoded as %s' % (alt[0], spec[1].qual))
                want = sorted((k, v) for k, v in (alt[2] if len(alt) > 2 else {}).items() if k in ('implicit', 'explicit'))
                if tagging is not None and tagging != repr(want):
                    s.note('alternative tagging', c, 'alternative %s is decoded with tagging %s instead of %s' % (alt[0], tagging, want))
        if got and i not in got and None not in got:
            s.note('alternative', c, 'class %s, tag %s selects alternative %s, but %s is declared with them' % (cl, tag, alts[got[0]][0], alts[i][0]))
    if outer:
        return
    if whole:
        for id_ in ((0, 77), (1, 0), (2, 77), (3, 1)):
            if id_ not in used:
                s.refuse('tag for a choice', c, None, [element(id_[0], 0, id_[1]), element(0, 1, 16)])
        for cl, tag in sorted(used):
            if ((cl + 1) % 4, tag) not in used:
                s.refuse('class for a choice', c, None, [element((cl + 1) % 4, 0, tag), element(0, 1, 16)])
                break
