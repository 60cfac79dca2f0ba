"""P05: decoded components are matched to the fields of their structure."""
import itertools

from ..flow import State, TooComplex, K, NONE, TRUE, FALSE, is_k, op, tup, wrap, Static
from ..model import ClassInfo
from ..build import ClassState
from ..fold import Fold
from .d01 import closure, tlv, order

RULE = ('for every implementation of structures, sets and their collections, every definition made of mandatory, optional and defaulted components (untagged, '
        'implicitly and explicitly tagged, choices, open types, types selected by an identifier) and every list of encoded elements: reading each component, '
        'the number of elements and the native view yield exactly what X.680 prescribes: each element in definition order (set: by tag), decoded with the type and tagging of '
        'the component it belongs to; absence for an absent optional component, the default for an absent defaulted one, ValueError for an absent mandatory '
        'one and for an unknown or repeated set member')
EXPLANATION = ('The set-up of the class and the readers are interpreted from their source, with the definition and the octets fixed and components opaque '
               '(an element together with the type and tagging it is handed to the decoder with); the resulting component must be the expected one.')
ASSUMPTIONS = ['one element is decoded as P01-P04 say', 'the definitions interpreted stand for those with more components of the same kinds']

TOKEN = frozenset(['component'])
PARTS = 4       # pieces the work on one implementation is cut into


class Field(object):
    """A component of the definition: type, tagging, optionality, and the elements that belong to it"""
    def __init__(self, spec, first, opt=None, tagging=None, default=None, octets=None):
        self.spec, self.opt, self.default = spec, opt, default
        self.params = {}
        if tagging:
            self.params[tagging[0]] = tagging[1]
        if opt == 'optional':
            self.params['optional'] = True
        elif opt == 'default':
            self.params['default'] = default
        self.first = first if isinstance(first, tuple) else (first,)    # leading octets of its encodings; () = any
        self.octets = octets or [bytes([f, 1, 7]) if not f & 0x20 else bytes([f, 3, 2, 1, 7]) for f in self.first]

    def matches(self, e):
        return not self.first or e[0] in self.first

    def __repr__(self):
        t = ''.join('[%s] %s ' % (self.params[k], k.upper()) for k in ('explicit', 'implicit') if k in self.params)
        return t + (self.spec or 'ANY').split('.')[-1] + {None: '', 'optional': ' OPTIONAL', 'default': ' DEFAULT %r' % (self.default,)}[self.opt]


class Hooks(ClassState):
    unroll = 300
    max_states = 200

    def __init__(self, prog, cls, over, natives=None):
        ClassState.__init__(self)
        self.p, self.cls, self.over, self.natives = prog, cls, over, natives or {}
        self.tok = {}
        self.frame = None

    def inline(self, ip, fi, bound, frame):
        return fi.module.name not in ('_types', '_errors') or fi.name not in ('type_name', 'unwrap')    # texts of errors

    def token(self, *what):
        k = 'T:%r' % (what,)
        self.tok[k] = what
        return ('sym', k, TOKEN)

    def node(self, v):
        return self.tok.get(v[1]) if v[0] == 'sym' and len(v) > 2 and v[2] == TOKEN else None

    def getattr(self, ip, st, obj, attr, node, frame):
        t = self.node(obj)
        if t is not None:
            if attr == '__class__':
                return [(('cls', self.p.cls(t[2] or t[1] or 'core.Any')) if t[0] == 'element' else ('cls', self.p.cls(t[1])), st)]
            if attr == 'native':
                if t[0] == 'element' and t[-1] in self.natives:
                    return [(K(self.natives[t[-1]]), st)]
                return [(('sym', 'native of ' + obj[1], None), st)]
            if attr == 'explicit':
                return [(NONE, st)]
            if attr == 'implicit':
                return [(FALSE, st)]
            return None
        if attr in self.over and (obj == ('ref', 's') or obj == ('cls', self.cls)):
            return [(self.over[attr], st)]
        if obj[0] == 'tup' and attr == '__class__':
            return [(('ext', 'builtins.tuple'), st)]
        return ClassState.getattr(self, ip, st, obj, attr, node, frame)

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        t = self.node(o)
        if t is not None:
            if name == 'retag' and t[0] == 'default':
                return [(o, st)]
            if name == '_parse_children':
                return [(NONE, st)]
        return None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[1].qual == 'core._build':
            ps = fn[1].params()
            d = dict(zip(ps, args))
            d.update(kwargs)
            v = [ip.const(d.get(x, NONE), st) for x in ps[:6]]
            specs = [self.spec_name(ip, d.get(x, NONE), st) for x in (ps[6], ps[8])]
            params = ip.const(d.get(ps[7], NONE), st) if d.get(ps[7], NONE)[0] != 'ref' else self.dict_of(ip, d[ps[7]], st)
            if all(x[0] for x in v) and '?' not in specs and params[0]:
                enc = b''.join(x[1] for x in v[3:])
                if (v[0][1], v[2][1]) == order(enc) and v[1][1] == enc[0] >> 5 & 1:
                    return [(self.token('element', specs[0], specs[1], norm(params[1]), enc), st)]
            return [(('sym', 'an element decoded in an unknown way', None), st)]
        if fn[0] == 'cls' and 'default' in kwargs:
            kw = dict((k, ip.const(v, st)) for k, v in kwargs.items())
            if all(v[0] for v in kw.values()) and all(a == NONE for a in args):
                kw.pop('value', None)
                return [(self.token('default', fn[1].qual, norm(dict((k, v[1]) for k, v in kw.items()))), st)]
        if fn[0] == 'ext' and fn[1].split('.')[-1] == 'isinstance' and len(args) == 2:
            t = self.node(ip.resolve(args[0], st))
            if t is not None:
                c = self.p.cls(t[1] or 'core.Any')
                ns = self.classes(ip.resolve(args[1], st))
                if ns is not None:
                    return [(K(any(isinstance(x, ClassInfo) and x in c.mro for x in ns)), st)]
        return ClassState.call(self, ip, st, fn, args, kwargs, node, frame)

    def classes(self, v):
        if v[0] == 'tup':
            xs = [self.classes(x) for x in v[1]]
            return None if None in xs else [y for x in xs for y in x]
        return [v[1]] if v[0] in ('cls', 'ext') else None

    def spec_name(self, ip, v, st):
        v = ip.resolve(v, st)
        return None if v == NONE else v[1].qual if v[0] == 'cls' else '?'

    def dict_of(self, ip, v, st):
        ps = ip.pairs(v, st)
        if ps is None:
            return False, None
        cs = [(ip.const(k, st), ip.const(x, st)) for k, x in ps]
        return all(a[0] and b[0] for a, b in cs), dict((a[1], b[1]) for a, b in cs)


def norm(params):
    return tuple(sorted((k, v) for k, v in (params or {}).items() if k in ('explicit', 'implicit', 'default', 'optional', 'class_', 'tag', 'tag_type')))


class Reader(Fold):
    def decide(self, c, st):
        if c[0] == 'op' and c[1] in ('is', 'eq') and len(c) == 4:
            x, y = self.resolve(c[2], st), self.resolve(c[3], st)
            k = [v for v in (x, y) if v[0] == 'sym' and len(v) > 2 and v[2] == TOKEN]
            if k and x != y and (len(k) == 2 or 'const_inst' in (x[0], y[0]) or NONE in (x, y)):
                return False
            if set([x[0], y[0]]) == set(['tup', 'const_inst']):
                return False
        return Fold.decide(self, c, st)

    # generators: the values are collected in order
    def e_Yield(self, e, st, frame):
        if e.value is None:
            return Fold.e_Yield(self, e, st, frame)
        out = []
        for v, s in self.ev(e.value, st, frame):
            old = s.env.get('#yield')
            s.env['#yield'] = tup(*((old[1] if old is not None and old[0] == 'tup' else ()) + (v,)))
            out.append((NONE, s))
        return out

    def concrete_iter(self, it, st):
        if it[0] == 'op' and it[1] == 'gen' and len(it) == 4 and it[3][0] == 'tup':
            return list(it[3][1])
        if it[0] == 'op' and it[1] == 'gen' and len(it) == 4 and it[3] == NONE:
            return []
        if it == ('ref', 's') and self.h.frame is not None:
            f = self.h.cls.method('__iter__')
            rs = self.invoke(('fn', f, it), [], {}, st, f.node, self.h.frame) if f is not None else ()
            if len(rs) == 1:
                st.heap = rs[0][1].heap
                return self.concrete_iter(self.resolve(rs[0][0], st), st)
        return Fold.concrete_iter(self, it, st)

    def mkcomp(self, e, elts, st, frame, kind):
        self.h.frame = frame
        return Fold.mkcomp(self, e, elts, st, frame, kind)

    def s_For(self, s, st, frame):
        self.h.frame = frame
        return Fold.s_For(self, s, st, frame)


# -- what X.680 says
VOID, ERR, ANY_RESULT = 'absent', 'ValueError', 'either'


def sequence(fields, elements, spec_of):
    """expected component for each field: ('element', spec, nested, params, octets) / ('default', ...) / VOID, or ERR; flag: a mandatory one got another tag"""
    out, f, odd = [], 0, False
    for e in elements:
        while f < len(fields) and fields[f].opt and not fields[f].matches(e):
            out.append(absent(fields[f]))
            f += 1
        if f == len(fields):
            return None, odd        # more elements than components: not claimed
        odd = odd or not fields[f].matches(e)
        out.append(given(fields, f, e, spec_of))
        f += 1
    for f in range(f, len(fields)):
        if not fields[f].opt:
            return ERR, odd
        out.append(absent(fields[f]))
    return out, odd


def the_set(fields, elements, spec_of):
    got = {}
    for e in elements:
        k = [i for i, f in enumerate(fields) if f.matches(e)]
        if not k or k[0] in got:
            return ERR, False
        got[k[0]] = e
    if any(not f.opt and i not in got for i, f in enumerate(fields)):
        return ERR, False
    return [given(fields, i, got[i], spec_of) if i in got else absent(f) for i, f in enumerate(fields)], False


def absent(f):
    return VOID if f.opt == 'optional' else ('default', f.spec, norm(f.params))


def given(fields, i, e, spec_of):
    spec, nested = spec_of(i, fields[i].spec)
    return ('element', spec, nested, norm(fields[i].params), e)


def show(x):
    if isinstance(x, str):
        return {VOID: 'absent', ERR: 'ValueError'}.get(x, x)
    if x[0] == 'default':
        return 'the default %s of %s' % (dict(x[2]).get('default'), x[1])
    return '%s decoded as %s%s %s' % (x[4].hex(), x[1], ' holding %s' % x[2] if x[2] else '', dict(x[3]))


class Judge(object):
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.seen = set()
        self.only = None        # one key for all that goes wrong in one situation

    def alarm(self, key, where, text):
        key = self.only or key
        if key not in self.seen:
            self.seen.add(key)
            self.ctx.report(key, where, text)

    def start(self, cls, fields, elements, over, natives):
        o = {'_fields': ('sc', Static.of([('n%d' % i, self.p.cls(f.spec) if f.spec else None, dict(f.params)) for i, f in enumerate(fields)], 'fields')),
             '_spec_callbacks': NONE, '_oid_pair': NONE, '_oid_specs': NONE}
        o.update(over)
        h = Hooks(self.p, cls, o, natives)
        st = State()
        st.heap['s'] = {'__cls__': cls, '__state__': 'fresh', 'children': NONE, '_contents': K(b''.join(elements)) if elements is not None else NONE,
                        '_mutated': FALSE, '_header': NONE, '_trailer': K(b''), '_native': NONE, 'explicit': NONE}
        if '_oid_pair' not in over:
            st.heap['cls:' + cls.qual] = {'__cls__': None, '_oid_nums': NONE}
        ip = Reader(self.p, h, budget=30000)
        setup = cls.method('_setup')
        if setup is not None:
            st = self.one(ip, setup, [('ref', 's')], st)
            if st is None or st.kind == 'raise':
                return h, ip, None
            st = st.st
        return h, ip, st

    def one(self, ip, f, args, st):
        try:
            outs = [o for o in ip.run(f, args, st) if o.kind in ('raise', 'return', 'fall')]
        except TooComplex:
            return None
        return outs[0] if len(outs) == 1 else None

    def component(self, h, v):
        void = wrap(self.p.modules['core'].env['VOID'])
        if v == void:
            return VOID
        return h.node(v)

    def structure(self, cls, key, fields, elements, want, odd, over=None, natives=None):
        ctx = self.ctx
        if len(ctx.undecided) > 12:         # the code is not understood; each attempt is expensive
            return
        text = ' (definition: %s; elements: %s)' % ('; '.join(map(repr, fields)), 'none, not decoded' if elements is None else ', '.join(e.hex() for e in elements) or 'none')
        get = cls.method('__getitem__')
        where = '%s:%s' % (get.module.relpath, get.node.lineno)
        for by in ('name', 'index'):
            h, ip, st = self.start(cls, fields, elements, over or {}, natives)
            if st is None:
                ctx.undec('%s: class set-up does not fold%s' % (cls.qual, text))
                return
            for i in range(len(fields)):
                o = self.one(ip, get, [('ref', 's'), K('n%d' % i) if by == 'name' else K(i)], st)
                ctx.count('components read')
                if not self.compare(cls, key, h, o, want if want is ERR else want[i], odd, 'component %d' % i, text, where):
                    break
                st = o.st
            else:
                n = cls.method('__len__')
                o = self.one(ip, n, [('ref', 's')], st)
                if o is None or o.kind != 'return' or not is_k(o.val):
                    ctx.undec('%s: the length does not fold%s' % (cls.qual, text))
                elif o.val != K(len(fields)):
                    self.alarm('%s length' % key, where, '%s has length %s, not %d%s' % (cls.qual, o.val[2], len(fields), text))
        if elements is None:
            return
        # the native view decodes everything at once
        h, ip, st = self.start(cls, fields, elements, over or {}, natives)
        nat, _ = cls.lookup('native')
        o = self.one(ip, nat.fget, [('ref', 's')], st)
        ctx.count('native views')
        where = '%s:%s' % (nat.fget.module.relpath, nat.fget.node.lineno)
        if o is None:
            ctx.undec('%s: the native view does not fold to one path%s' % (cls.qual, text))
        elif o.kind == 'raise':
            if o.val != 'ValueError' or want is not ERR and not odd:
                self.alarm('%s native fails' % key, '%s:%s' % (where.split(':')[0], getattr(o.node, 'lineno', '?')), 'the native view of %s fails with %s%s' % (
                    cls.qual, o.val, text))
        elif want is ERR:
            self.alarm('%s native accepted' % key, where, 'the native view of %s does not refuse the encoding%s' % (cls.qual, text))
        else:
            ps = ip.pairs(o.val, o.st)
            if ps is None:
                ctx.undec('%s: the native view does not fold%s' % (cls.qual, text))
                return
            exp = []
            for i, w in enumerate(want):
                if w is VOID:
                    v = NONE
                elif w[0] == 'element' and w[4] in (natives or {}):
                    v = K(natives[w[4]])
                else:
                    v = ('sym', 'native of T:%r' % (w,), None)
                exp.append((K('n%d' % i), v))
            if [(ip.resolve(k, o.st), ip.resolve(v, o.st)) for k, v in ps] != exp:
                self.alarm('%s native' % key, where, 'the native view of %s is %s instead of %s%s' % (
                    cls.qual, [(k[-1], v[1]) for k, v in ps], [(k[-1], v[1]) for k, v in exp], text))

    def compare(self, cls, key, h, o, want, odd, what, text, where):
        ctx = self.ctx
        if o is None:
            ctx.undec('%s: reading %s does not fold to one path%s' % (cls.qual, what, text))
            return False
        if o.kind == 'raise':
            if o.val != 'ValueError' or not (want is ERR or odd):
                self.alarm('%s fails' % key, '%s:%s' % (where.split(':')[0], getattr(o.node, 'lineno', '?')), 'reading %s of %s fails with %s%s%s' % (
                    what, cls.qual, o.val, '' if want is ERR else ' instead of yielding %s' % show(want), text))
            return False
        got = self.component(h, o.val)
        if want is ERR:
            self.alarm('%s accepted' % key, where, 'reading %s of %s does not fail with ValueError%s' % (what, cls.qual, text))
            return False
        if got is None:
            ctx.undec('%s: %s is not a known component%s' % (cls.qual, what, text))
            return False
        if got != want:
            self.alarm('%s wrong' % key, where, '%s of %s is %s instead of %s%s' % (what, cls.qual, show(got), show(want), text))
            return False
        return True


def groups(p, base, but=()):
    out = {}
    b = p.cls(base)
    roots = ('_parse_children', 'native', '_lazy_child')
    for c in sorted(p.asn1_classes(), key=lambda c: (c is not b, c.qual)):
        if b in c.mro and not any(p.cls(x) in c.mro for x in but):
            sig = tuple(closure(c, r) for r in roots) + tuple(id(c.method(m)) for m in ('__getitem__', '__len__'))
            out.setdefault(sig, c)
    return list(out.values())


def tagged(spec, first, opt, tagging=None, default=None):
    if tagging:
        c, n = tagging[1] if isinstance(tagging[1], tuple) else (2, tagging[1])
        first = c << 6 | (0x20 if tagging[0] == 'explicit' else 0) | n
    return Field(spec, first, opt, tagging, default)


def kinds():
    """components of every kind, pairwise distinguishable"""
    I, O, B, U = 'core.Integer', 'core.OctetString', 'core.Boolean', 'core.UTF8String'
    yield I, 2, None, 5
    yield O, 4, None, b'x'
    yield B, 1, None, False
    yield I, 2, ('implicit', 0), 0
    yield O, 4, ('explicit', 1), b'y'
    yield U, 12, ('implicit', 2), 'z'
    yield I, 2, ('implicit', (1, 2)), 1
    yield B, 1, ('explicit', (1, 3)), True


def definitions(thorough):
    ks = list(kinds())
    for n in (1, 2, 3):
        for r in range(len(ks)):
            sel = [ks[(r + i * 2) % len(ks)] if n == 3 else ks[(r + i) % len(ks)] for i in range(n)]
            if len(set((k[1] if not k[2] else k[2][1]) for k in sel)) < n:
                continue
            for opts in itertools.product((None, 'optional', 'default'), repeat=n):
                if n == 3 and not thorough and r % 2:
                    continue
                yield [tagged(s, f, o, t, d if o == 'default' else None) for (s, f, t, d), o in zip(sel, opts)]
    time = lambda o: Field('x509.Time', (0x17, 0x18), o)
    name = lambda o: Field('x509.GeneralName', (0x82,), o)
    any_ = lambda o: Field('core.Any', (), o, octets=[b'\x16\x01a', b'\x30\x00'])
    for t in (('explicit', 0), ('explicit', (1, 5))):
        outer = tagged('x509.Time', None, 'optional', t)
        yield [outer, time(None)]
        yield [outer, time('optional'), tagged('core.Integer', 2, 'optional')]
        yield [outer, tagged('core.UTF8String', 0x17, None, ('implicit', (0, 0x17)))]
        yield [tagged('x509.GeneralName', None, 'optional', t), name('optional'), tagged('core.OctetString', 4, None, ('implicit', 20))]
    for o in (None, 'optional'):
        yield [tagged('core.Integer', 2, o), time(o), tagged('core.Boolean', 1, 'optional')]
        yield [time('optional'), tagged('core.Integer', 2, o)]
        yield [name('optional'), time(o), tagged('core.OctetString', 4, 'default', None, b'q')]
        yield [tagged('core.Integer', 2, None), any_(o)]
        yield [tagged('core.Integer', 2, 'default', None, 1), any_(o)]


def element_lists(fields, is_set):
    """encodings made of elements of the definition, and of others"""
    own = [f.octets for f in fields]
    for pick in itertools.product(*[[None] + o for o in own]):
        es = [x for x in pick if x is not None]
        yield es
        if is_set and len(es) > 1:
            yield es[::-1]
            if len(es) > 2:
                yield [es[1], es[2], es[0]]
    every = [o[0] for o in own]
    strange = b'\x05\x00'
    yield [strange]
    yield [strange] + every
    yield every[:1] + [strange] + every[1:]
    if is_set:
        yield every + every[:1]
        yield every[:1] * 2 + every[1:]
        yield every + [strange]
        yield every + [b'\x9e\x01\x00']


def structures(ctx, cls, is_set, part):
    j = Judge(ctx)
    spec = lambda i, s: (s, None)
    if part == 0:
        open_types(ctx, j, cls, is_set)
        if is_set:
            set_choices(ctx, j, cls)
    for fields in list(definitions(ctx.thorough))[part::PARTS]:
        if is_set and any(not f.first or len(f.first) > 1 or f.spec.startswith('x509') for f in fields):
            continue
        for es in element_lists(fields, is_set):
            want, odd = (the_set if is_set else sequence)(fields, es, spec)
            if want is None:
                continue
            j.structure(cls, cls.qual, fields, es, want, odd)
        want = [absent(f) if f.opt == 'default' else VOID for f in fields]
        j.structure(cls, '%s unset' % cls.qual, fields, None, want, False)


def open_types(ctx, j, cls, is_set):
    """the type of a component selected by an identifier before it"""
    p = ctx.prog
    ids = {'known': 'core.Integer', 'other': 'core.IA5String'}
    for where, first in (('core.Any', ()), ('core.OctetString', (4,)), ('core.Any', (0xa0,))):
        for opt in (None, 'optional'):
            tagging = ('explicit', 0) if first == (0xa0,) else None
            if is_set and not first:
                continue
            octets = [b'\x02\x01\x05'] if not first else [b'\x04\x03\x02\x01\x05'] if first == (4,) else [b'\xa0\x03\x02\x01\x05']
            fields = [Field('core.ObjectIdentifier', 6), Field(where, first, opt, tagging, octets=octets), tagged('core.Boolean', 1, 'optional')]
            for native in ('known', 'other', 'unheard of'):
                over = {'_oid_pair': tup(K('n0'), K('n1')), '_oid_specs': ('sc', Static.of(dict((k, p.cls(v)) for k, v in ids.items()), 'oid specs'))}
                oid = b'\x06\x01\x2a'

                def spec(i, s):
                    if i == 1 and native in ids:
                        return (ids[native], None) if where == 'core.Any' else (s, ids[native])
                    return s, None
                for es in ([oid] + octets, [oid], [oid] + octets + [b'\x01\x01\xff'], [oid, b'\x01\x01\x00']):
                    if first == () and es[1:2] == [b'\x01\x01\x00']:
                        continue
                    want, odd = (the_set if is_set else sequence)(fields, es, spec)
                    # X.680 allows an open type in a set; and an absent open type under a tag of its own before another component
                    j.only = 'open type selected by an identifier in a set' if is_set else 'absent tagged open type before another component' if \
                        tagging and opt and es[-1] == b'\x01\x01\x00' else None
                    if want is not None:
                        j.structure(cls, '%s open type' % cls.qual, fields, es, want, odd, over, {oid: native})
    j.only = None


def set_choices(ctx, j, cls):
    j.only = 'choice as a member of a set'
    spec = lambda i, s: (s, None)
    for opt in (None, 'optional'):
        fields = [Field('x509.Time', (0x17, 0x18), opt), tagged('core.Integer', 2, None)]
        for es in element_lists(fields, True):
            j.structure(cls, '%s choice' % cls.qual, fields, es, *the_set(fields, es, spec))
    j.only = None


def collections(ctx, cls):
    j = Judge(ctx)
    p = ctx.prog
    get, nat = cls.method('__getitem__'), cls.lookup('native')[0]
    where = '%s:%s' % (get.module.relpath, get.node.lineno)
    E = [b'\x02\x01\x05', b'\x02\x01\x03', b'\x02\x02\x01\x00', b'\x02\x01\x05']
    for spec in ('core.Integer', 'core.Any', 'x509.Name', 'x509.Extension'):
        for n in range(len(E) + 1):
            es = E[:n]
            text = ' (elements: %s of type %s)' % (', '.join(e.hex() for e in es) or 'none', spec)
            h = Hooks(p, cls, {'_child_spec': ('cls', p.cls(spec))})

            def start():
                st = State()
                st.heap['s'] = {'__cls__': cls, '__state__': 'fresh', 'children': NONE, '_contents': K(b''.join(es)), '_mutated': FALSE, '_header': NONE,
                                '_trailer': K(b''), '_native': NONE, 'explicit': NONE}
                return Reader(p, h, budget=30000), st
            ip, st = start()
            for i in range(n):
                o = j.one(ip, get, [('ref', 's'), K(i)], st)
                ctx.count('elements read')
                if not j.compare(cls, cls.qual, h, o, ('element', spec, None, (), es[i]), False, 'element %d' % i, text, where):
                    break
                st = o.st
            ip, st = start()
            o = j.one(ip, cls.method('__len__'), [('ref', 's')], st)
            if o is None or o.kind != 'return' or not is_k(o.val):
                ctx.undec('%s: the length does not fold%s' % (cls.qual, text))
            elif o.val != K(n):
                j.alarm('%s length' % cls.qual, where, '%s has length %s, not %d%s' % (cls.qual, o.val[2], n, text))
            ip, st = start()
            o = j.one(ip, nat.fget, [('ref', 's')], st)
            c = ip.concrete_iter(ip.resolve(o.val, o.st), o.st) if o is not None and o.kind == 'return' else None
            exp = [('sym', 'native of T:%r' % (('element', spec, None, (), e),), None) for e in es]
            if o is not None and o.kind == 'raise':
                j.alarm('%s native fails' % cls.qual, where, 'the native view of %s fails with %s%s' % (cls.qual, o.val, text))
            elif c is None:
                ctx.undec('%s: the native view does not fold%s' % (cls.qual, text))
            elif [ip.resolve(x, o.st) for x in c] != exp:
                j.alarm('%s native' % cls.qual, where, 'the native view of %s is not that of its elements in order%s' % (cls.qual, text))


def work(ctx, item):
    kind, qual, part = item
    cls = ctx.prog.cls(qual)
    if kind == 'of':
        collections(ctx, cls)
    else:
        structures(ctx, cls, kind == 'set', part)
    ctx.count('implementations', not part)


def check(ctx):
    p = ctx.prog
    items = [('set', c.qual, i) for c in groups(p, 'core.Set') for i in range(PARTS)]
    items += [('sequence', c.qual, i) for c in groups(p, 'core.Sequence', ('core.Set',)) for i in range(PARTS)]
    items += [('of', c.qual, 0) for c in groups(p, 'core.SequenceOf')]
    ctx.spread(items, work)
    ctx.need('implementations', 3)
    ctx.need('components read', 500)
