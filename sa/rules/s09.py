"""S09: algorithm identifiers whose parameters must be NULL get NULL."""
from ..flow import State, TooComplex, K, NONE, is_k, wrap
from ..model import FuncInfo
from . import s08
from .s08 import Node, VOID, leaf

RULE = ('for every algorithm identifier structure and every identifier its registry names (and the ones that require NULL, named or not): after the algorithm is assigned or the structure constructed, the '
        'parameters are NULL where a standard requires it and none were present; parameters that are present, and those of other algorithms, are left alone, '
        'as is whatever else is assigned')
EXPLANATION = ('The assignment methods and constructors of the structures are folded with the identifier and the presence of parameters fixed; what remains in the parameters is compared with '
               'the list of identifiers for which RFC 3279, 4055, 5754 and 8017 require NULL.')
ASSUMPTIONS = ['the assignment of Sequence stores what it is given (P06)']

# RFC 8017 A.2.4, RFC 4055 2.1/5 and RFC 3279 2.2.1/2.3.1
MUST = {'1.2.840.113549.1.1.1', '1.2.840.113549.1.1.11', '1.2.840.113549.1.1.12', '1.2.840.113549.1.1.13', '1.2.840.113549.1.1.14', '1.3.14.3.2.26',
        '2.16.840.1.101.3.4.2.4', '2.16.840.1.101.3.4.2.1', '2.16.840.1.101.3.4.2.2', '2.16.840.1.101.3.4.2.3'}
# allowed to be NULL; not judged
MAY = {'1.2.840.113549.1.1.%d' % i for i in (2, 3, 4, 5, 15, 16)} | {'2.16.840.1.101.3.4.2.%d' % i for i in range(5, 17)} | {
    '1.2.840.113549.2.%d' % i for i in (2, 4, 5, 6, 7, 8, 9, 10, 11)} | {'2.16.840.1.101.3.4.3.%d' % i for i in (13, 14, 15, 16)} | {
    '1.3.36.3.2.1', '1.3.36.3.3.1.2', '1.3.14.3.2.15', '1.3.14.3.2.29', '1.0.10118.3.0.55'}
STRUCTURES = ('algos.DigestAlgorithm', 'algos.SignedDigestAlgorithm', 'algos.EncryptionAlgorithm', 'algos.AnyAlgorithmIdentifier', 'keys.PrivateKeyAlgorithm',
              'keys.PublicKeyAlgorithm', 'cms.KeyEncryptionAlgorithm')


class Hooks(s08.Hooks):
    def getattr(self, ip, st, obj, attr, node, frame):
        n = self.node(obj)
        if n is not None and attr in ('dotted', '_dotted') and hasattr(n, 'dotted'):
            return [(K(n.dotted), st)]
        return s08.Hooks.getattr(self, ip, st, obj, attr, node, frame)

    def getitem(self, ip, st, obj, key, node, frame):
        n = self.node(obj)
        if n is self.me and is_k(key):
            k = {0: 'algorithm', 1: 'parameters'}.get(key[2], key[2])
            v = dict(st.mon or ()).get(k)
            if v is not None:
                return [(v, st)]
            return s08.Hooks.getitem(self, ip, st, obj, K(k), node, frame)
        return s08.Hooks.getitem(self, ip, st, obj, key, node, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[1].name == '_setup':
            return [(NONE, st)]         # class tables, see S04
        if fn[0] == 'fn' and (fn[2] is None or fn[2][0] == 'cls') and args and self.node(ip.resolve(args[0], st)) is self.me and fn[1].cls is not None:
            fn, args = (fn[0], fn[1], ip.resolve(args[0], st)) + tuple(fn[3:]), list(args[1:])      # Class.method(self, ...)
        if fn[0] == 'fn' and fn[2] is not None and self.node(fn[2]) is self.me:
            name = fn[1].name
            if fn[1].qual == 'core.Sequence.__setitem__':
                a = list(args) + [kwargs[k] for k in ('key', 'value')[len(args):] if k in kwargs]
                if len(a) == 2 and is_k(a[0]):
                    v = ip.resolve(a[1], st)
                    k = {0: 'algorithm', 1: 'parameters'}.get(a[0][2], a[0][2])
                    st.mon = tuple(x for x in (st.mon or ()) if x[0] != k) + ((k, self.void if v == NONE else v),)
                    st.setf(fn[2][1], 'children', ip.new_container('list', (self.void, self.void), st, node))
                    st.setf(fn[2][1], '_mutated', K(True))
                    return [(NONE, st)]
            if fn[1].qual in ('core.Asn1Value.__init__', 'core.Sequence._parse_children'):
                return [(NONE, st)]
            if fn[1].qual == 'core.Sequence.__delitem__' and len(args) == 1 and is_k(args[0]):
                st.mon = tuple(x for x in (st.mon or ()) if x[0] != args[0][2]) + ((args[0][2], self.void),)
                return [(NONE, st)]
            if name == '_is_mutated':
                return [(K(True), st)]
        return s08.Hooks.call(self, ip, st, fn, args, kwargs, node, frame)


def identifiers(p, cls):
    f = dict((x[0], x[1]) for x in cls.get('_fields') or () if isinstance(x, (tuple, list)))
    c = f.get('algorithm')
    m = c.get('_map') if c is not None and hasattr(c, 'get') else None
    out = {}
    if isinstance(m, dict):
        out.update((k, v) for k, v in m.items() if isinstance(k, str) and isinstance(v, str))
    for o in sorted(MUST):
        out.setdefault(o, o)
    return c, out


def seqcls(p):
    return p.cls('core.Sequence')


def construct(ctx, cls, names, algorithm, value, exp, what):
    """the parameters after construction from components given by name"""
    init = cls.method('__init__')
    h = Hooks(ctx.prog)
    h.me = me = Node(cls.qual, comps={'algorithm': VOID, 'parameters': VOID})
    st = State()
    ip = s08.Reader(ctx.prog, h, budget=20000)
    ref = h.ref(st, me)
    d = ip.new_dict([(K(n), h.ref(st, {'algorithm': algorithm, 'parameters': value}[n])) for n in names], st, None)
    ctx.count('constructions')
    try:
        outs = [o for o in ip.run(init, [ref], st, {'value': d}) if o.kind in ('raise', 'return', 'fall')]
    except TooComplex:
        outs = []
    judge(ctx, cls, init, h, ip, outs, VOID, exp, what, 'construction')


def run(ctx, cls, f, key, value, algorithm, parameters, exp, what):
    """the parameters after `cls[key] = value` ('algorithm': the value of the identifier afterwards)"""
    h = Hooks(ctx.prog)
    old = algorithm
    if key == 'algorithm':      # whatever it was before does not matter
        old = leaf(algorithm.cls, 'the former algorithm')
        old.dotted = '1.2.3' if algorithm.dotted in MUST else '1.3.14.3.2.26'
    me = Node(cls.qual, comps={'algorithm': old, 'parameters': parameters})
    h.me = me
    st = State()
    ip = s08.Reader(ctx.prog, h, budget=20000)
    ref = h.ref(st, me)
    v = NONE if value is None else h.ref(st, value)
    ctx.count('assignments')
    if f.cls is seqcls(ctx.prog):       # not overridden: the component is stored
        got = {'parameters': VOID if value is None else value}.get(key, parameters)
        if got is not exp:
            ctx.report('%s %s' % (cls.qual, key), cls.where, '%s makes the parameters %s instead of %s' % (what, describe(got), describe(exp)))
        return
    try:
        outs = [o for o in ip.run(f, [ref, K(key), v], st) if o.kind in ('raise', 'return', 'fall')]
    except TooComplex:
        outs = []
    judge(ctx, cls, f, h, ip, outs, parameters, exp, what, key)


def judge(ctx, cls, f, h, ip, outs, parameters, exp, what, key):
    where = '%s:%s' % (f.module.relpath, f.node.lineno)
    if len(outs) != 1:
        ctx.undec('%s does not fold to one path' % what)
        return
    o = outs[0]
    if o.kind == 'raise':
        ctx.report('%s fails' % cls.qual, '%s:%s' % (f.module.relpath, getattr(o.node, 'lineno', '?')), '%s fails with %s' % (what, o.val))
        return
    mon = dict(o.st.mon or ())
    got = ip.resolve(mon['parameters'], o.st) if 'parameters' in mon else None
    if got is None:
        r = parameters
    elif got == h.void:
        r = VOID
    elif h.node(got) is not None:
        r = h.node(got)
    else:
        c = ip.cls_of(got, o.st)
        if c is None:
            ctx.undec('%s: the parameters afterwards are not known' % what)
            return
        r = 'a new %s' % c.qual
    if isinstance(exp, Node) and exp.cls == 'core.Null' and r == 'a new core.Null':
        return
    if r is not exp and r != exp:
        ctx.report('%s %s' % (cls.qual, key), where, '%s makes the parameters %s instead of %s' % (what, describe(r), describe(exp)))


def describe(x):
    return 'absent' if x is VOID else 'the value it was' if isinstance(x, Node) else 'unchanged' if x is None else x.replace('a new core.Null', 'NULL')


def check(ctx):
    p = ctx.prog
    seq = p.cls('core.Sequence')
    for q in STRUCTURES:
        cls = p.cls(q)
        if cls is None or not cls.issub(seq):
            ctx.undec('%s was not found' % q)
            continue
        f = cls.method('__setitem__')
        c, ids = identifiers(p, cls)
        if not isinstance(f, FuncInfo) or c is None:
            ctx.undec('the assignment of %s was not found' % q)
            continue
        ctx.count('structures')
        for dotted, name in sorted(ids.items()):
            a = leaf(c.qual, name)
            a.dotted = dotted
            p0 = leaf('core.Any', 'parameters')
            p2, p3, p4, p5 = leaf('core.OctetString', b'octets'), leaf('core.Null', None), leaf('core.Integer', 5), Node('core.Sequence', comps={'a': leaf('core.Integer', 5)})
            p1 = leaf('core.Any', 'other parameters')
            for key, value, before, exp in (
                    ('algorithm', a, VOID, 'a new core.Null' if dotted in MUST else VOID),
                    ('algorithm', a, p0, p0), ('algorithm', a, p2, p2), ('algorithm', a, p3, p3), ('algorithm', a, p4, p4), ('algorithm', a, p5, p5),
                    ('parameters', p1, VOID, p1), ('parameters', p1, p0, p1), ('parameters', None, p0, VOID)):
                if dotted in MAY and key == 'algorithm' and before is VOID:
                    continue
                what = 'assigning %s to %s of %s (%s %s, parameters %s)' % (
                    'the identifier' if key == 'algorithm' else 'nothing' if value is None else 'a value', key, q, 'now' if key == 'algorithm' else 'of', name,
                    'absent' if before is VOID else 'present')
                run(ctx, cls, f, key, value, a, before, exp, what)
            for names in (['algorithm'], ['algorithm', 'parameters'], ['parameters', 'algorithm']):
                if dotted in MAY and len(names) == 1:
                    continue
                construct(ctx, cls, names, a, p1, p1 if len(names) > 1 else 'a new core.Null' if dotted in MUST else VOID,
                          'constructing %s from %s (%s)' % (q, ' and '.join(names), name))
    ctx.need('structures', 4)
    ctx.need('assignments', 200)
