"""D01: rebuilt encodings are canonical."""
import ast
import datetime
import itertools

from ..flow import State, TooComplex, K, NONE, TRUE, FALSE, is_k, op, tup, wrap, Static
from ..model import FuncInfo, PropertyInfo, ClassInfo, InstStub
from ..build import ClassState
from ..fold import Fold

RULE = ('for every implementation of the encoder of sets, sets-of, sequences and sequences-of, and members/elements M with known encodings: the encoding '
        'computed from the source is header(shortest length) + members in canonical order (set: class and tag of the outermost tag; set-of: octets; '
        'sequence: definition order), absent members and members equal to their default left out; the constructor of each boolean, integer, named-bit string, '
        'object identifier and time type evaluates to the canonical contents')
EXPLANATION = ('The encoders and setters are interpreted from their source with every input fixed (representative members under each kind of tagging, in every '
               'order, decoded and not; representative values), so that sorting keys, buffers, header arithmetic and format strings fold to constants; the '
               'constant must equal the encoding X.690 section 11 prescribes.')
ASSUMPTIONS = ['members encode themselves canonically (each type is judged separately)', 'representative members and values stand for the others of their kind']


# -- what X.690 says
def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def tlv(first, contents):
    return (first if isinstance(first, bytes) else bytes([first])) + length(len(contents)) + contents


def order(enc):
    """(class, tag) of an encoding"""
    c, t = enc[0] >> 6, enc[0] & 31
    if t == 31:
        t, i = 0, 1
        while True:
            t = t << 7 | enc[i] & 0x7f
            if not enc[i] & 0x80:
                break
            i += 1
    return c, t


class Member(object):
    def __init__(self, ident, enc, kind='value', params=None, spec='Integer', tag=None, class_=None, explicit=None, native=None, lazy=False, old=None):
        self.old = old          # what it was decoded from, when that was not canonical
        self.ident, self.enc, self.kind, self.params, self.spec = ident, enc, kind, params or {}, spec
        self.explicit, self.native, self.lazy = explicit, native, lazy
        self.class_, self.tag = class_, tag

    def as_lazy(self):
        m = Member(self.ident, self.enc, self.kind, self.params, self.spec, self.tag, self.class_, self.explicit, self.native, True, self.old)
        return m


MEMBER = frozenset(['member'])


class Enc(Fold):
    def decide(self, c, st):
        if c[0] == 'op' and c[1] in ('is', 'eq') and len(c) == 4:
            x, y = self.resolve(c[2], st), self.resolve(c[3], st)
            k = [v for v in (x, y) if v[0] == 'sym' and len(v) > 2 and v[2] == MEMBER]
            if k and x != y and (len(k) == 2 or 'const_inst' in (x[0], y[0])) or set([x[0], y[0]]) == set(['tup', 'const_inst']):
                return False
        return Fold.decide(self, c, st)

    def concrete_iter(self, it, st):
        if it == ('ref', 's') and self.h.cls is not None and self.h.sequence_of():
            return [('sym', 'm:' + x.ident, MEMBER) for x in self.h.list]
        return Fold.concrete_iter(self, it, st)


class Hooks(ClassState):
    unroll = 300
    max_states = 200

    def __init__(self, prog, cls=None, members=(), fields=None):
        ClassState.__init__(self)
        self.p, self.cls, self.fields = prog, cls, fields
        self.m = dict(('m:' + x.ident, x) for x in members)

    def inline(self, ip, fi, bound, frame):
        return fi.module.name not in ('_types', '_errors') or fi.name not in ('type_name', 'unwrap')    # texts of errors

    def node(self, v):
        return self.m.get(v[1]) if v[0] == 'sym' and isinstance(v[1], str) else None

    def getattr(self, ip, st, obj, attr, node, frame):
        m = self.node(obj)
        if m is not None:
            v = self.member_attr(m, attr)
            return [(v, st)] if v is not None else None
        if attr == '_fields' and self.fields is not None and (obj == ('ref', 's') or obj == ('cls', self.cls)):
            return [(self.fields, st)]
        if obj[0] == 'tup' and attr == '__class__':
            return [(('ext', 'builtins.tuple'), st)]
        if obj[0] == 'tup' and not hasattr(tuple, attr):
            frame.raises.append(('AttributeError', st.fork(), node))
            return []
        if obj[0] == 'cls' and isinstance(obj[1], ClassInfo) and attr == '__mro__':
            return [(tup(*[('cls', b) for b in obj[1].mro]), st)]
        if obj[0] == 'cls' and isinstance(obj[1], ClassInfo) and attr == '__dict__':
            d = dict((k, wrap(v)) for k, v in obj[1].attrs.items())
            d.update((k, v) for k, v in st.heap.get('cls:' + obj[1].qual, {}).items() if k != '__cls__')
            ref = st.alloc(__cls__='dict', __keys__=frozenset(K(k) for k in d), __site__=0, **{})
            st.heap[ref[1]] = dict(st.heap[ref[1]], **{})
            for k, v in d.items():
                st.heap[ref[1]][('key', K(k))] = v
            return [(ref, st)]
        if is_k(obj) and isinstance(obj[2], datetime.datetime) and not attr.startswith('_'):
            v = getattr(obj[2], attr, None)
            if isinstance(v, int):
                return [(K(v), st)]
            if attr == 'tzinfo':
                return [(K(v) if v is not None else NONE, st)]
        return ClassState.getattr(self, ip, st, obj, attr, node, frame)

    def member_attr(self, m, attr):
        if attr == '__class__':
            return ('cls', self.p.cls('core.' + m.spec))
        if m.kind == 'choice':
            if attr in ('chosen', '_parsed'):
                return ('sym', 'm:' + m.ident + '/chosen', MEMBER)
            if attr in ('tag', 'class_'):
                return NONE
        t = {'tag': m.tag, 'class_': m.class_, 'native': m.native}
        if attr in t and t[attr] is not None:
            return K(t[attr])
        if attr == 'explicit':
            return tup(tup(*[K(x) for x in m.explicit])) if m.explicit else NONE
        if attr == '_mutated':
            return FALSE
        return None

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        m = self.node(o)
        if m is not None:
            if name == 'dump':
                v = kwargs.get('force', args[0] if args else FALSE)
                force = ip.truth(v, st)
                if m.old is None or force or force is False and st.heap['s'].get('__forced__' + m.ident):
                    if m.old is not None:
                        st.setf('s', '__forced__' + m.ident, True)
                    return [(K(m.enc), st)]
                if force is False:
                    return [(K(m.old), st)]
                return [(('sym', 'encoding of ' + m.ident, None), st)]
            if name == '_is_mutated':
                return [(FALSE, st)]
        if is_k(o) and isinstance(o[2], datetime.datetime) and name == 'astimezone' and len(args) == 1:
            tz = self.utc(ip, st, args[0], node, frame)
            if tz is not None:
                return [(K(o[2].astimezone(datetime.timezone(tz))), st)]
        return None

    def utc(self, ip, st, v, node, frame):
        """offset of a time zone object"""
        if v == ('ext', 'datetime.timezone.utc'):
            return datetime.timedelta(0)
        if is_k(v) and isinstance(v[2], datetime.timezone):
            return v[2].utcoffset(None)
        cls = ip.cls_of(v, st)
        f = cls.method('utcoffset') if cls is not None else None
        if f is not None:
            rs = ip.invoke(('fn', f, v), [K(0)], {}, st, node, frame)
            if len(rs) == 1 and is_k(rs[0][0]) and isinstance(rs[0][0][2], datetime.timedelta):
                return rs[0][0][2]
        return None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn':
            q = fn[1].qual
            if fn[1].module.name == 'core' and fn[1].name == '__iter__' and fn[2] == ('ref', 's') and self.sequence_of():
                return [(ip.new_container('list', tuple(('sym', 'm:' + x.ident, MEMBER) for x in self.list), st, node), st)]
            if q == 'core._build' and args:
                m = self.lazy(ip, st, args)
                if m is not None:
                    return [(m, st)]
        if fn[0] == 'cls' and 'default' in kwargs and self.fields is not None:
            v = kwargs['default']
            ok, c = ip.const(v, st)
            if ok:
                return [(self.default(fn[1], c, kwargs), st)]
        if fn[0] == 'ext' and fn[1].split('.')[-1] == 'isinstance' and len(args) == 2:
            a = ip.resolve(args[0], st)
            m = self.node(a)
            if m is not None:
                c = self.p.cls('core.' + m.spec)
                names = self.class_args(ip.resolve(args[1], st))
                if names is not None:
                    return [(K(any(isinstance(x, ClassInfo) and x in c.mro for x in names)), st)]
            if is_k(a) and isinstance(a[2], datetime.datetime):
                names = self.class_args(ip.resolve(args[1], st))
                if names is not None:
                    return [(K(any(x in ('datetime.datetime', 'datetime.date') for x in names)), st)]
        return ClassState.call(self, ip, st, fn, args, kwargs, node, frame)

    def class_args(self, v):
        if v[0] == 'tup':
            out = []
            for x in v[1]:
                y = self.class_args(x)
                if y is None:
                    return None
                out += y
            return out
        if v[0] == 'cls':
            return [v[1]]
        if v[0] == 'ext':
            return [v[1]]
        return None

    def sequence_of(self):
        return self.cls is not None and self.p.cls('core.SequenceOf') in self.cls.mro

    def lazy(self, ip, st, args):
        bits = [ip.const(a, st) for a in args[3:6]]
        if len(bits) == 3 and all(b[0] and isinstance(b[1], bytes) for b in bits):
            enc = b''.join(b[1] for b in bits)
            for k, m in self.m.items():
                if (m.old or m.enc) == enc and m.lazy:
                    return ('sym', k, MEMBER)
        return None

    def default(self, cls, value, kwargs):
        """The value a component has when it is absent, built with the given tagging."""
        base = {5: b'\x02\x01\x05', False: b'\x01\x01\x00', True: b'\x01\x01\xff'}[value] if not isinstance(value, bytes) else tlv(4, value)
        tag = dict((k, kwargs[k][2]) for k in ('explicit', 'implicit') if k in kwargs and is_k(kwargs[k]))
        if 'explicit' in tag:
            base = tlv(0xa0 | tag['explicit'], base)
        elif 'implicit' in tag:
            base = bytes([0x80 | tag['implicit']]) + base[1:]
        ident = 'default:%s' % base.hex()
        self.m['m:' + ident] = Member(ident, base, native=value)
        return ('sym', 'm:' + ident, MEMBER)


def closure(cls, root):
    """Names of the methods of cls that `root` can reach through attributes of the object."""
    seen, work = {}, [root]
    while work:
        n = work.pop()
        v, _ = cls.lookup(n)
        fs = [v] if isinstance(v, FuncInfo) else [x for x in (v.fget, v.fset) if x is not None] if isinstance(v, PropertyInfo) else []
        for f in fs:
            if n not in seen:
                seen[n] = v
                work += [a.attr for a in ast.walk(f.node) if isinstance(a, ast.Attribute) and a.attr not in seen]
    return frozenset((n, id(v)) for n, v in seen.items() if not n.startswith('__'))


def groups(p, base, but=()):
    """One class per distinct encoder below `base`."""
    out = {}
    b = p.cls(base)
    for c in sorted(p.asn1_classes(), key=lambda c: (c.module.name != 'x509', c.qual)):
        if b in c.mro and not any(p.cls(x) in c.mro for x in but) and c is not b and not c.get('explicit'):
            out.setdefault(closure(c, 'dump'), c)
    return list(out.values())


class Judge(object):
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.seen = set()
        self.given_up = {}

    def place(self, f):
        return '%s:%s' % (f.module.relpath, f.node.lineno)

    def result(self, what, key, where, ip, outs, want, detail):
        """every way out returns the wanted constant"""
        ctx = self.ctx
        if outs is None:
            ctx.undec('%s: too many paths' % what)
            return
        got = False
        outs = [o for o in outs if o.kind in ('raise', 'return', 'fall')]
        if len(outs) > 1:
            ctx.undec('%s: the way through it does not fold to one path (%s)' % (what, key))
            return
        for o in outs:
            if o.kind == 'raise':
                got = True
                if want is ValueError and o.val == 'ValueError':
                    continue
                self.alarm('%s fails' % key, '%s:%s' % (where.module.relpath, getattr(o.node, 'lineno', '?')),
                           '%s fails with %s%s' % (what, o.val, detail))
            elif o.kind == 'return':
                got = True
                ok, v = ip.const(o.val, o.st)
                if not ok:
                    ctx.undec('%s: the encoding does not fold to a constant (%s)' % (what, key))
                elif v != want:
                    self.alarm('%s wrong' % key, self.place(where), '%s encodes as %s instead of %s%s' % (
                        what, v.hex() if isinstance(v, bytes) else v, want.hex() if isinstance(want, bytes) else want.__name__, detail))
        if not got:
            ctx.undec('%s: no way out found' % what)

    def alarm(self, key, where, text):
        if key not in self.seen:
            self.seen.add(key)
            self.ctx.report(key, where, text)

    # -- containers
    def container(self, cls, members, want, key, detail, fields=None, force=True):
        h = Hooks(self.p, cls, members, fields)
        h.list = members
        st = State()
        kids = []
        for m in members:
            if m.kind == 'void':
                kids.append(wrap(self.p.modules['core'].env['VOID']))
            elif m.lazy:
                e = m.old or m.enc
                head = 2 + (e[1] & 127 if e[1] & 128 else 0) if e[0] & 31 != 31 else 3
                kids.append(tup(K(e[0] >> 6), K(e[0] >> 5 & 1), K(order(e)[1]), K(e[:head]), K(e[head:]), K(b''),
                                ('cls', self.p.cls('core.' + m.spec)), wrap(m.params)))
            else:
                kids.append(('sym', 'm:' + m.ident, MEMBER))
            if m.kind == 'choice':
                h.m['m:' + m.ident + '/chosen'] = Member(m.ident + '/chosen', m.enc, tag=order(m.enc)[1], class_=order(m.enc)[0], native=m.native)
        ch = st.alloc(__cls__='list', __const__=tuple(kids), __site__=0, __elt__=None)
        st.heap['s'] = {'__cls__': cls, '__state__': 'fresh', 'children': ch, '_contents': K(b'old'), '_mutated': K(not force), '_header': NONE,
                        '_trailer': K(b''), '_native': NONE, 'explicit': NONE}
        ip = Enc(self.p, h, budget=40000)
        f = cls.method('dump')
        try:
            if self.given_up.get(cls, 0) > 3:       # the encoder is not understood; each attempt is expensive
                return
            outs = ip.run(f, [('ref', 's'), K(force)], st)
        except TooComplex:
            outs = None
            self.given_up[cls] = self.given_up.get(cls, 0) + 1
        self.ctx.count('encodings of containers')
        self.result(cls.qual, key, f, ip, outs, want, detail)

    def first(self, cls):
        t, c = cls.get('tag'), cls.get('class_') or 0
        return c << 6 | 0x20 | t


def names(ms):
    return ', '.join('%s%s' % (m.ident, ' (not yet decoded)' if m.lazy else '') for m in ms)


MEMBERS = [
    Member('a [1] EXPLICIT INTEGER', b'\xa1\x03\x02\x01\x02', params={'explicit': 1}, tag=2, class_=0, explicit=(2, 1), native=2),
    Member('b OCTET STRING', b'\x04\x01\x31', spec='OctetString', tag=4, class_=0, native=b'1'),
    Member('c INTEGER', b'\x02\x01\x07', tag=2, class_=0, native=7),
    Member('d [0] IMPLICIT OCTET STRING', b'\x80\x01\x32', spec='OctetString', params={'implicit': 0}, tag=0, class_=2, native=b'2'),
    Member('e choice (of a BOOLEAN)', b'\x01\x01\xff', 'choice', spec='Choice', native=True),
    Member('f [APPLICATION 9] INTEGER', b'\x49\x01\x03', params={'implicit': (1, 9)}, tag=9, class_=1, native=3),
    Member('g IA5String', b'\x16\x01a', spec='IA5String', tag=22, class_=0, native='a'),
    Member('h [40] IMPLICIT INTEGER', b'\x9f\x28\x01\x04', params={'implicit': 40}, tag=40, class_=2, native=4),
    Member('i [5] EXPLICIT choice', b'\xa5\x03\x01\x01\x00', 'value', {'explicit': 5}, 'Integer', tag=1, class_=0, explicit=(2, 5), native=False),
    Member('j [PRIVATE 0] INTEGER', b'\xc0\x01\x06', params={'implicit': (3, 0)}, tag=0, class_=3, native=6),
]


def fields_of(p, ms):
    return ('sc', Static.of([('n%d' % i, p.cls('core.' + m.spec), m.params) for i, m in enumerate(ms)], 'fields'))


def lists(thorough):
    """lists of members of a set or sequence: (members, why)"""
    void = Member('absent', b'', 'void', {'optional': True})
    for a, b in itertools.permutations(MEMBERS, 2):
        yield [a, b]
    for k in range(len(MEMBERS)):
        yield MEMBERS[k:] + MEMBERS[:k]
    yield MEMBERS[::-1]
    yield [m.as_lazy() for m in MEMBERS if m.kind != 'choice'][::-1]
    yield [MEMBERS[0].as_lazy(), MEMBERS[2]]
    yield [void, MEMBERS[1], void, MEMBERS[2]]
    yield [MEMBERS[1], void]
    yield [void, void]
    if thorough:
        for t in itertools.permutations(MEMBERS, 3):
            yield list(t)


def defaults():
    """a component with a default, holding it or another value, under each kind of tagging"""
    for tagging, wrapper in ((None, lambda e: e), ('explicit', lambda e: tlv(0xa3, e)), ('implicit', lambda e: b'\x83' + e[1:])):
        for default, other in ((5, 6), (False, True), (True, False)):
            spec = 'Integer' if default == 5 else 'Boolean'
            enc = {5: b'\x02\x01\x05', 6: b'\x02\x01\x06', 'F': b'\x01\x01\x00', 'T': b'\x01\x01\xff'}
            for v in (default, other):
                p = {'default': default}
                if tagging:
                    p[tagging] = 3
                e = wrapper(enc[v if not isinstance(v, bool) else 'T' if v else 'F'])
                tag = 3 if tagging == 'implicit' else 2 if spec == 'Integer' else 1
                m = Member('%s%s DEFAULT %s holding %s' % ('[3] %s ' % tagging.upper() if tagging else '', spec, default, v), e, params=p, spec=spec,
                           tag=tag, class_=2 if tagging == 'implicit' else 0, explicit=(2, 3) if tagging == 'explicit' else None, native=v)
                n = Member('%s decoded from another encoding' % m.ident, e, params=p, spec=spec, tag=m.tag, class_=m.class_, explicit=m.explicit,
                           native=v, old=e[:1] + b'\x81' + e[1:])
                for x in (m, m.as_lazy(), n, n.as_lazy()):
                    yield x, v == default and isinstance(v, bool) == isinstance(default, bool)


ELEMENTS = [b'\x02\x01\x05', b'\x02\x01\x03', b'\x02\x02\x01\x00', b'\x04\x01\x01', b'\x02\x01\xff', b'\x04\x00', b'\x30\x03\x02\x01\x09', b'\xa0\x00',
            b'\x04\x02\x00\x00']

# encodings with longer headers than needed, in another order than what they are re-encoded to
OLD = [(b'\x04\x81\x01\x01', b'\x04\x01\x01'), (b'\x04\x02\x00\x00', b'\x04\x02\x00\x00'), (b'\x04\x82\x00\x01\x02', b'\x04\x01\x02'),
       (b'\x04\x01\x03', b'\x04\x01\x03')]


def containers(ctx):
    p, j = ctx.prog, Judge(ctx)
    thorough = ctx.thorough
    fixed = 0
    for base, but in (('core.Set', ()), ('core.Sequence', ('core.Set',))):
        for cls in groups(p, base, but):
            fixed += 1
            f1 = j.first(cls)
            is_set = base == 'core.Set'
            for ms in lists(thorough):
                inc = [m for m in ms if m.kind != 'void']
                enc = [m.enc for m in inc]
                if is_set:
                    enc.sort(key=order)
                for force in (True, False) if len(ms) > 2 or thorough else (True,):
                    j.container(cls, ms, tlv(f1, b''.join(enc)), '%s order' % cls.qual,
                                ' (members: %s)' % names(ms), fields_of(p, ms), force)
            for m, equal in defaults():
                other = MEMBERS[1]
                for ms in ([m, other], [other, m]):
                    enc = [x.enc for x in ms if not (x is m and equal)]
                    if is_set:
                        enc.sort(key=order)
                    j.container(cls, ms, tlv(f1, b''.join(enc)), '%s default' % cls.qual, ' (members: %s)' % names(ms), fields_of(p, ms))
            for n in (121, 122, 123, 124, 248, 249, 250, 251, 252, 253, 254, 300, 65530, 65531, 65532, 65533):
                big = Member('a long OCTET STRING', tlv(4, b'x' * n), spec='OctetString', tag=4, class_=0, native=b'')
                j.container(cls, [MEMBERS[2], big], tlv(f1, MEMBERS[2].enc + big.enc), '%s length' % cls.qual, ' (%d bytes of members)' % len(
                    MEMBERS[2].enc + big.enc), fields_of(p, [MEMBERS[2], big]))
    for base, but in (('core.SetOf', ()), ('core.SequenceOf', ('core.SetOf',))):
        for cls in groups(p, base, but):
            fixed += 1
            for r in (0, 1, 2, 3):
                every = list(itertools.permutations(ELEMENTS, r) if r < 3 or thorough else itertools.permutations(ELEMENTS[:5], r))
                if r > 1:
                    every += [(e,) * r for e in ELEMENTS[:3]] + [ELEMENTS[:1] + ELEMENTS[1:r] + ELEMENTS[:1]]
                for es in every:
                    for lazy in (False, True):
                        ms = [Member('element %d: %s' % (i, e.hex()), e, native=e.hex(), tag=order(e)[1], class_=order(e)[0]) for i, e in enumerate(es)]
                        if lazy:
                            ms = [m.as_lazy() for m in ms]
                        want = b''.join(sorted(es) if base == 'core.SetOf' else es)
                        j.container(cls, ms, tlv(j.first(cls), want), '%s order' % cls.qual, ' (elements in the order %s)' % ', '.join(e.hex() for e in es))
            for es in itertools.permutations(OLD, 3):
                for lazy in (False, True):
                    ms = [Member('element %d: %s' % (i, o.hex()), e, native=e.hex(), tag=order(e)[1], class_=order(e)[0], old=o if o != e else None)
                          for i, (o, e) in enumerate(es)]
                    if lazy:
                        ms = [m.as_lazy() for m in ms]
                    want = [e for _, e in es]
                    j.container(cls, ms, tlv(j.first(cls), b''.join(sorted(want) if base == 'core.SetOf' else want)), '%s order' % cls.qual,
                                ' (elements decoded from %s, re-encoded)' % ', '.join(o.hex() for o, _ in es))
    return fixed


def empty(ctx):
    """Constructing a structure all of whose components may be left out, without giving any."""
    p, j = ctx.prog, Judge(ctx)
    seen = set()
    for c in sorted(p.asn1_classes(), key=lambda c: c.qual):
        if p.cls('core.Sequence') not in c.mro or c.get('explicit') or c.get('class_') not in (None, 0):
            continue
        fs = c.get('_fields') or []
        if not fs or not all(len(f) > 2 and 'optional' in f[2] for f in fs):
            continue
        sig = (closure(c, 'dump'), closure(c, '__init__'))
        if sig in seen:
            continue
        seen.add(sig)
        h = Hooks(p)
        ip = Enc(p, h, budget=60000)
        st = State()
        st.heap['s'] = {'__cls__': c, '__state__': 'fresh'}
        ref = st.alloc(__cls__='dict', __keys__=frozenset(), __site__=0)
        ctx.count('structures built from nothing')
        try:
            outs = ip.run(c.method('__init__'), [('ref', 's')], st, {'value': ref})
            outs = [x for o in outs for x in ([o] if o.kind == 'raise' else ip.run(c.method('dump'), [('ref', 's')], o.st))]
        except TooComplex:
            outs = None
        j.result(c.qual, '%s empty' % c.qual, c.method('__init__'), ip, outs, bytes([j.first(c), 0]), ' (constructed from an empty dict)')


# -- values
def ident(arcs):
    out = b''
    for i, a in enumerate([arcs[0] * 40 + arcs[1]] + arcs[2:]):
        b = bytes([a & 127])
        a >>= 7
        while a:
            b = bytes([0x80 | a & 127]) + b
            a >>= 7
        out += b
    return out


def integer(v):
    n = 1
    while not -(1 << 8 * n - 1) <= v < 1 << 8 * n - 1:
        n += 1
    return v.to_bytes(n, 'big', signed=True)


def bits(on):
    """contents of a named-bit string with these bits"""
    n = max(on) + 1 if on else 0
    v = 0
    for i in range((n + 7) // 8 * 8):
        v = v << 1 | (i in on)
    return bytes([-n % 8]) + v.to_bytes((n + 7) // 8, 'big')


UTC = datetime.timezone.utc


def instants():
    for off in (0, 60, -330, 839):
        tz = datetime.timezone(datetime.timedelta(minutes=off)) if off else UTC
        for t in ((1999, 12, 31, 23, 59, 59), (2020, 2, 29, 0, 30, 0), (2049, 6, 7, 8, 9, 10), (1955, 1, 1, 13, 0, 5)):
            yield datetime.datetime(*t, tzinfo=tz)


def cases(p, c):
    """(argument, contents, text) of values of one type"""
    is_a = lambda n: p.cls('core.' + n) in c.mro
    m = c.get('_map')
    if is_a('Boolean'):
        for v in (True, False):
            yield v, b'\xff' if v else b'\0', str(v)
    elif is_a('BitString') and isinstance(m, dict):
        idx = sorted(i for i in m if isinstance(i, int))
        for on in [()] + [(i,) for i in idx] + list(itertools.combinations(idx[:3] + idx[-2:], 2)) + [tuple(idx)]:
            yield set(m[i] for i in on), bits(set(on)), 'the bits %s' % (', '.join(m[i] for i in on) or '(none)')
        for n in (1, 7, 8, 9):
            t = tuple(1 if i == 0 else 0 for i in range(min(n, idx[-1] + 1)))
            yield t, bits(set([0])), 'bit 0 and %d trailing zeros' % (len(t) - 1)
        yield (0,) * (idx[-1] + 1), bits(set()), 'only zeros'
    elif is_a('Integer') and (isinstance(m, dict) or not is_a('Enumerated')):
        if isinstance(m, dict):
            for k, n in sorted(m.items()):
                yield n, integer(k), n
        elif is_a('Integer'):
            for k in (0, 1, 5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 63, (1 << 64) - 1, 1 << 64, -1, -127, -128, -129, -255, -256, -257,
                      -32768, -32769, -65536, -(1 << 63), -(1 << 63) - 1):
                yield k, integer(k), str(k)
    elif is_a('ObjectIdentifier') and not isinstance(m, dict):
        for a in ([0, 0], [0, 39], [1, 0, 1], [1, 2, 840, 113549], [2, 5, 4, 127], [2, 5, 4, 128], [2, 39, 16383, 16384], [2, 40], [2, 999, 3], [1, 3, 0, 2097151, 2097152],
                  [2, 48, 0]):
            yield '.'.join(map(str, a)), ident(a), '.'.join(map(str, a))
    elif is_a('UTCTime'):
        for t in instants():
            u = t.astimezone(UTC)
            yield t, u.strftime('%y%m%d%H%M%SZ').encode('ascii'), t.isoformat()
        yield datetime.datetime(1949, 12, 31, 23, 30, tzinfo=UTC), ValueError, 'a time in 1949'
        yield datetime.datetime(2050, 1, 1, 0, 30, tzinfo=UTC), ValueError, 'a time in 2050'
        yield datetime.datetime(2020, 1, 1, 0, 30), ValueError, 'a time without a time zone'
    elif is_a('GeneralizedTime'):
        for t in instants():
            for us, text in ((0, ''), (5, '.000005'), (120000, '.12'), (999999, '.999999'), (100000, '.1'), (1000, '.001')):
                u = t.astimezone(UTC).replace(microsecond=us)
                yield t.replace(microsecond=us), (u.strftime('%Y%m%d%H%M%S') + text + 'Z').encode('ascii'), t.replace(microsecond=us).isoformat()
        yield datetime.datetime(2020, 1, 1, 0, 30), ValueError, 'a time without a time zone'


def values(ctx):
    p, j = ctx.prog, Judge(ctx)
    seen = set()
    n = 0
    for c in sorted(p.asn1_classes(), key=lambda c: c.qual):
        m = c.get('_map')
        sig = (closure(c, 'set'), id(m) if isinstance(m, dict) else None, c.get('_encoded_width'))
        if sig in seen or c.method('set') is None:
            continue
        seen.add(sig)
        cs = list(cases(p, c))
        if not cs:
            continue
        n += 1
        for arg, want, text in cs:
            value(j, c, arg, want, text)
    return n


def value(j, c, arg, want, text):
    p, ctx = j.p, j.ctx
    h = Hooks(p)
    ip = Enc(p, h, budget=60000)
    st = State()
    st.heap['s'] = {'__cls__': c, '__state__': 'fresh'}
    init = c.method('__init__')
    a = K(arg) if isinstance(arg, datetime.datetime) else ip.wrap(arg, st, None)
    ctx.count('values encoded')
    try:
        outs = ip.run(init, [('ref', 's')], st, {'value': a})
    except TooComplex:
        ctx.undec('%s: too many paths' % c.qual)
        return
    f = c.method('set')
    outs = [o for o in outs if o.kind in ('raise', 'return', 'fall')]
    if len(outs) != 1:
        ctx.undec('%s of %s: the way through it does not fold to one path' % (c.qual, text))
        return
    key = '%s contents' % c.qual if isinstance(c.get('_map'), dict) else '%s contents' % f.cls.qual
    for o in outs:
        if o.kind == 'raise':
            if want is ValueError and o.val == 'ValueError':
                continue
            j.alarm('%s fails' % key, '%s:%s' % (f.module.relpath, getattr(o.node, 'lineno', '?')), '%s of %s fails with %s' % (c.qual, text, o.val))
            continue
        v = o.st.heap['s'].get('contents', o.st.heap['s'].get('_contents'))
        ok, v = ip.const(v, o.st) if v is not None else (False, None)
        if not ok:
            ctx.undec('%s of %s: the contents do not fold to a constant' % (c.qual, text))
        elif v != want:
            j.alarm('%s wrong' % key, j.place(f), '%s of %s has the contents %s instead of %s' % (
                c.qual, text, v.hex() if isinstance(v, bytes) else v, want.hex() if isinstance(want, bytes) else 'being refused'))


def check(ctx):
    ctx.count('container encoders', containers(ctx))
    ctx.need('container encoders', 4)
    empty(ctx)
    ctx.count('value types', values(ctx))
    ctx.need('value types', 12)
