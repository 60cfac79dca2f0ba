"""M08: an unmodified decoded value encodes to the bytes it was decoded from."""
from ..build import Builder, element, names, EOC
from ..flow import Interp, State, K, NONE, TRUE, FALSE, op, is_k, TooComplex, wrap
from ..objsem import ObjHooks, SELF, FILLED
from ..model import FuncInfo, PropertyInfo, ClassInfo
from .p04 import declared

RULE = ('(a) On every path on which the decoder returns a value, the header, contents and trailer it keeps are, concatenated, exactly the '
        'header, contents and trailer bytes it was given, for plain, implicitly and explicitly tagged types, choices and indefinite '
        'lengths. (b) On every path through dump() of a value in that state, of definite length and unmodified, the result is exactly the '
        'kept header followed by the kept contents; a component that was read in between counts as unmodified. (c) Reading components '
        'stores nothing that the encoding is computed from, other than the decoded form of a component.')
EXPLANATION = ('Abstract interpretation of the decoder and of every dump() with symbolic header, contents and trailer bytes; results are '
               'compared as concatenations of those symbols.')
ASSUMPTIONS = ['reads do not change the kept bytes (M05)', 'components decoded from the kept contents are themselves unmodified']
B = frozenset(['bytes'])


def flat(v, st=None, d=0):
    """Concatenation parts, constants merged; None for no bytes."""
    if v is None or v == NONE:
        return []
    if v[0] == 'op' and v[1] == 'add':
        out = flat(v[2], st) + flat(v[3], st)
    elif is_k(v):
        out = [v] if v[2] else []
    elif v[0] == 'op' and v[1] == 'typed':
        out = flat(v[2], st)
    elif v[0] == 'op' and v[1] == 'meth' and v[2] == K(b'') and v[3] == K('join') and v[4][0] == 'tup':
        out = [x for y in v[4][1] for x in flat(y, st)]
    else:
        out = [v]
    res = []
    for x in out:
        if res and is_k(x) and is_k(res[-1]):
            res[-1] = K(res[-1][2] + x[2])
        else:
            res.append(x)
    return res


def given(els):
    out = []
    for i in range(len(els)):
        out.append(('sym', names(i)[0], B))
    out.append(('sym', names(len(els) - 1)[1], B))
    for e in reversed(els):
        if e.get('indef'):
            out.append(K(EOC))
    return merge(out)


def merge(out):
    res = []
    for x in out:
        if res and is_k(x) and is_k(res[-1]):
            res[-1] = K(res[-1][2] + x[2])
        else:
            res.append(x)
    return res


def field(ip_prog, st, ref, name):
    ob = st.heap[ref[1]]
    if name in ob:
        return ob[name]
    cls = ob['__cls__']
    v, ow = cls.lookup(name)
    return None if ow is None or isinstance(v, (PropertyInfo, FuncInfo)) else wrap(v)


def show(parts):
    out = []
    for x in parts:
        out.append(x[1] if x[0] == 'sym' else repr(x[2]) if is_k(x) else '<computed>')
    return ' + '.join(out) or '(nothing)'


def check(ctx):
    p = ctx.prog
    b = Builder(p)
    if not b.ok():
        ctx.undec('the decoder core._build was not found')
        return
    bad = {}

    def keeps(label, c, params, els):
        ctx.count('decoded shapes')
        try:
            outs = b.run(c, params, els)
        except TooComplex:
            ctx.undec('%s: %s' % (label, c.qual if c else 'no type'))
            return
        want = given(els)
        for o in outs:
            if o.kind != 'return' or o.val[0] != 'ref':
                continue
            ctx.count('decoder exits')
            parts = []
            for f in ('_header', ('_contents', 'contents'), '_trailer'):
                fs = f if isinstance(f, tuple) else (f,)
                v = None
                for g in fs:
                    w = o.st.heap[o.val[1]].get(g)
                    if w is not None and w != NONE:
                        v = w
                        break
                else:
                    v = field(p, o.st, o.val, fs[-1])
                parts += flat(v)
            if merge(parts) != want:
                bad.setdefault(label, [set(), show(merge(parts)), show(want)])[0].add(c.qual if c is not None else '(no type)')

    choice, any_, cons = p.cls('core.Choice'), p.cls('core.Any'), p.cls('core.Constructable')
    seen = set()
    for c in p.asn1_classes():
        if c is choice or c.get('explicit'):
            continue
        if c.issub(choice):
            ids = declared(p, c)
            if not ids:
                continue
            for (cl, tag), m, i in ids:
                e = element(cl, m, tag)
                keeps('a choice', c, None, [e])
                if m == 1:
                    keeps('a choice of indefinite length', c, None, [dict(e, indef=True)])
            if ('choice', c.method('__init__'), c.method('validate')) not in seen:
                seen.add(('choice', c.method('__init__'), c.method('validate')))
                (cl, tag), m, i = ids[0]
                for ind in (False, True):
                    keeps('an explicitly tagged choice', c, {'explicit': 2}, [element(2, 1, 2, indef=ind), element(cl, m, tag)])
                    keeps('a choice with two explicit tags', c, {'explicit': ((2, 4), (3, 6))},
                          [element(3, 1, 6, indef=ind), element(2, 1, 4), element(cl, m, tag)])
            continue
        if c is any_:
            cl, m, tag = 0, 0, 2
        else:
            tag, m, cl = c.get('tag'), c.get('method'), c.get('class_') or 0
        if not isinstance(tag, int) or not isinstance(m, int):
            continue
        keeps('a plain value', c, None, [element(cl, m, tag)])
        if m == 1 or c.issub(cons):
            keeps('a value of indefinite length', c, None, [element(cl, 1, tag, indef=True)])
        sig = (c.method('__init__'), m, c.issub(cons))
        if sig in seen:
            continue
        seen.add(sig)
        if c is not any_:
            keeps('an implicitly tagged value', c, {'implicit': 3}, [element(2, m, 3)])
        for ind in (False, True):
            keeps('an explicitly tagged value', c, {'explicit': 2}, [element(2, 1, 2, indef=ind), element(cl, m, tag)])
            keeps('a value with two explicit tags', c, {'explicit': ((2, 4), (3, 6))},
                  [element(3, 1, 6, indef=ind), element(2, 1, 4, indef=ind), element(cl, m, tag)])
        if m == 1:
            keeps('an explicitly tagged value of indefinite length', c, {'explicit': 2}, [element(2, 1, 2), element(cl, m, tag, indef=True)])
    keeps('a value without a type', None, None, [element(0, 0, 2)])
    keeps('an explicitly tagged value without a type', None, {'explicit': 2}, [element(2, 1, 2), element(0, 0, 2)])
    keeps('a value with two explicit tags and no type', None, {'explicit': ((2, 4), (3, 6))},
          [element(3, 1, 6), element(2, 1, 4), element(0, 0, 2)])
    for label, (ns, got, want) in sorted(bad.items()):
        ns = sorted(ns)
        ctx.report('kept %s' % label, b.build.where, 'decoding %s keeps %s of %s (%d types: %s%s)' % (
            label, got, want, len(ns), ', '.join(ns[:3]), ', ...' if len(ns) > 3 else ''))
    dumps(ctx)
    component_reads(ctx)
    ctx.need('decoder exits', 200)
    ctx.need('dump paths', 10)


def component_reads(ctx):
    """(c) reading components leaves a value unmodified"""
    from . import m05
    p = ctx.prog
    names = frozenset(['__getitem__', '__iter__', '__len__', 'native', 'chosen', 'parsed'])
    points = [e for e in m05.entry_points(p, [c for c in p.asn1_classes() if c.method('dump') is not None]) if e[1] in names]
    for c, n, f, shared, out, outs in m05.effects(ctx, p, points):
        ctx.count('component reads')
        for kind, what, fn, line in out:
            if kind == 'store' and what.startswith(('self.', 'an item of self.')):
                ctx.report('read %s %s' % (fn.qual, what), '%s:%s' % (fn.module.relpath, line),
                           '%s.%s stores %s (in %s), so an unmodified value no longer encodes to the bytes it was decoded from' % (
                               c.qual, n, what, fn.qual))


# ---------------------------------------------------------------- encoding an unmodified value

H0, C0 = ('sym', 's._header@0', B), ('sym', 's.contents@0', B)
ENC = ('sym', 'encoding of the parsed value', B)


class Kept(ObjHooks):
    max_states = 200
    unroll = 4

    def __init__(self, choice, container=False):
        self.choice, self.container = choice, container

    def entry_field(self, ip, st, oid, attr, frame):
        v = ObjHooks.entry_field(self, ip, st, oid, attr, frame)
        if v is not None and oid == 's' and attr in ('_explicit',):
            return v
        return v

    def entry_objs(self, st):
        return tuple(k for k in st.heap if k in ('s', 'x', 'c0', 'c1', 'c2', 'g1'))

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] != 'fn':
            return None
        n = fn[1].name
        if fn[1].qual == 'core._parse_build':
            d = args[0] if args else kwargs.get('encoded_data')
            st.mon = (st.mon or ()) + (tuple(flat(d)),)
            frame.raises.append(('ValueError', st.fork(), node))
            return [(('tup', (('sym', 'parsed', None), op('len', d))), st)]
        if n == '_set_contents' and fn[2] == SELF and self.container:
            f = '_contents' if isinstance(st.heap['s']['__cls__'].lookup('contents')[0], PropertyInfo) else 'contents'
            for k, v in ((f, ('sym', 'a new encoding of the components', B)), ('_header', NONE), ('_trailer', K(b'')), ('_mutated', FALSE)):
                st.setf('s', k, v)
            return [(NONE, st)]
        if n == 'dump' and fn[2] is not None and fn[2] != SELF:
            return [(C0 if self.choice else ENC, st)]
        return None

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        if name == 'dump':
            return [(C0 if self.choice else ENC, st)]
        return None


def dumps(ctx):
    p = ctx.prog
    seq, seqof, choice, any_, prim = (p.cls('core.' + n) for n in ('Sequence', 'SequenceOf', 'Choice', 'Any', 'Primitive'))
    cons = p.cls('core.Constructable')
    seen = {}
    for c in p.asn1_classes():
        f = c.method('dump')
        if f is None or c.name == 'Void' or c.issub(choice) and not isinstance(c.get('_alternatives'), (list, tuple)):
            continue
        g = c.lookup('contents')[0]
        sig = (f, g.fget if isinstance(g, PropertyInfo) else None, c.method('_is_mutated'), c.issub(cons), c.issub(choice), c is any_)
        if sig not in seen or c.module.name == 'core' and seen[sig].module.name != 'core':
            seen[sig] = c
    for sig, c in sorted(seen.items(), key=lambda x: x[1].qual):
        f = c.method('dump')
        ctx.count('dump implementations')
        ctx.sample('dump', '%s on %s' % (f.qual, c.qual))
        for label, st, want in entries(p, c, seq, seqof, choice, any_, prim):
            ip = Interp(p, Kept(c.issub(choice), c.issub(seq) or c.issub(seqof)), budget=400000)
            try:
                outs = ip.run(f, [SELF], st)
            except TooComplex:
                ctx.undec('%s (%s)' % (f.qual, label))
                continue
            ret = [o for o in outs if o.kind == 'return']
            if not ret:
                ctx.undec('%s (%s) has no normal exit' % (f.qual, label))
            for o in ret:
                ctx.count('dump paths')
                got = merge(flat(o.val))
                if c.issub(any_):
                    fed = [m for m in (o.st.mon or ())]
                    if fed and any(list(m) != [H0, C0] for m in fed):
                        ctx.report('any %s' % f.qual, f.where, '%s of %s (%s) decodes %s instead of the kept encoding' % (
                            f.qual, c.qual, label, show(list(fed[0]))))
                if got != want:
                    ctx.report('encoding %s %s' % (f.qual, label), '%s:%s' % (f.module.relpath, getattr(o.node, 'lineno', f.node.lineno)),
                               '%s of an unmodified %s (%s) is %s instead of %s' % (f.qual, c.qual, label, show(got), show(want)))


def entries(p, c, seq, seqof, choice, any_, prim):
    """(label, state, expected parts)"""
    def base(**kw):
        st = State()
        d = {'__cls__': c, '__state__': 'entry', '_header': H0, '_trailer': K(b'')}
        cf = '_contents' if isinstance(c.lookup('contents')[0], PropertyInfo) else 'contents'
        d[cf] = C0
        if c.has('_indefinite'):
            d['_indefinite'] = FALSE
        if c.has('_mutated'):
            d['_mutated'] = FALSE
        if c.issub(choice):
            d['_choice'] = K(0)
        d.update(kw)
        st.heap['s'] = d
        return st
    if c.issub(any_):
        yield 'not read', base(_parsed=NONE), [ENC]
        return
    if c.issub(choice):
        for label, v in (('not read', NONE), ('read', ('sym', 'chosen', None))):
            yield label, base(_parsed=v), [H0, C0]
        return
    if c.issub(seq) or c.issub(seqof):
        yield 'not read', base(children=NONE), [H0, C0]
        from ..flow import Static
        kinds = (('a structure', seq), ('a list', seqof), ('a primitive value', prim), ('a choice', choice), ('an unread element', None))
        for label, k in kinds:
            st = base()
            ref = ('ref', 'c0')
            if k is None:
                ref = ('tup', (K(0), K(0), K(2), ('sym', 'rh', B), ('sym', 'rc', B), K(b'')))
            else:
                st.heap['c0'] = {'__cls__': k, '__state__': 'entry', '_mutated': FALSE, 'children': NONE}
            if k is choice:
                st.heap['g1'] = {'__cls__': seq, '__state__': 'entry', '_mutated': FALSE, 'children': NONE}
                st.heap['c0'] = {'__cls__': k, '__state__': 'entry', '_parsed': ('ref', 'g1')}
            st.heap['l'] = {'__cls__': 'list', '__const__': (ref,), '__elt__': ref, '__len__': K(1)}
            st.setf('s', 'children', ('ref', 'l'))
            if c.issub(seq):
                st.setf('s', '_fields', ('sc', Static.of([], 'fields')))
            yield '%s read' % label, st, [H0, C0]
        return
    if c.has('_parsed'):
        yield 'not read', base(_parsed=NONE), [H0, C0]
        yield 'read', base(_parsed=('tup', (('sym', 'parsed', None), NONE, NONE))), [H0, C0]
        return
    yield 'any', base(), [H0, C0]
