"""P06: a value placed in a component takes the component's type and tagging."""
from ..flow import K, NONE, TRUE, FALSE, is_k, tup, Static, TooComplex
from . import p05
from .p05 import Field, Hooks, Reader, norm, tagged, VOID, TOKEN, closure, given, absent

RULE = ('for every implementation of structures, sets and their collections, every component kind (plain, tagged either way, optional, defaulted, choice, open type '
        'and octet string holding a type selected by an identifier) and every kind of assigned value (native, of the type, of a subtype, of another type, None; '
        'untagged or tagged in four ways): reading the component after the assignment yields the value under the type and tagging of the definition, or '
        'the assignment is refused; the other components are as decoded')
EXPLANATION = ('Assignment, deletion, construction and reading are interpreted from their source with the definition fixed and values opaque: a value is known by the constructor '
               'call or the argument it comes from and the tagging it was last given, and the one read back must be the prescribed one.')
ASSUMPTIONS = ['retag() and constructors give a value the tagging they are told to (M04, P04)', 'the definitions interpreted stand for those with more components of the same kinds']

UNIVERSAL = {'core.Integer': 2, 'core.OctetString': 4, 'core.Boolean': 1, 'core.UTF8String': 12, 'core.IA5String': 22, 'x509.Version': 2, 'core.UTCTime': 23,
             'core.GeneralizedTime': 24, 'core.ObjectIdentifier': 6, 'core.Null': 5}


def tags(params):
    return tuple(sorted((k, v) for k, v in (params or {}).items() if k in ('explicit', 'implicit') and v is not None))


def numbers(t):
    return t if isinstance(t, tuple) else (2, t)


class Assign(Hooks):
    """tokens: ('value', class, tagging, name) an argument; ('built', class, tagging, argument) a constructor call"""

    def getattr(self, ip, st, obj, attr, node, frame):
        t = self.node(obj)
        if t is not None and t[0] in ('value', 'built') and attr != 'native':
            kind = dict(t[2])
            if attr == '__class__':
                return [(('cls', self.p.cls(t[1])), st)]
            u = UNIVERSAL.get(t[1])
            if attr in ('class_', 'tag', 'implicit', 'explicit'):
                if attr == 'explicit':
                    return [(tup(tup(*map(K, numbers(kind['explicit'])))) if 'explicit' in kind else NONE, st)]
                if attr == 'implicit':
                    return [(K('implicit' in kind), st)]
                if u is None and 'implicit' not in kind:
                    return [(NONE, st)]
                return [(K(numbers(kind['implicit'])[attr == 'tag'] if 'implicit' in kind else 0 if attr == 'class_' else u), st)]
            if attr == 'contents':
                return [(K(b'contents of ' + repr(t).encode()), st)]
            if attr in ('parsed', 'chosen', '_parsed'):
                return [(self.token('value', 'core.Null', (), 'inside %r' % (t,)), st)]
        if t is not None and t[0] in ('element', 'default') and attr in ('contents', 'parsed'):
            return [(K(b'contents'), st)]
        if obj[0] == 'const_inst' and attr == 'contents':
            c = ip.cls_of(obj, st)
            v = c.lookup(attr)[0] if c is not None else None
            if isinstance(v, bytes):        # the marker of an absent component
                return [(K(v), st)]
        return Hooks.getattr(self, ip, st, obj, attr, node, frame)

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        t = self.node(o)
        if t is not None and t[0] in ('value', 'built'):
            if name == 'retag' and len(args) == 1 and not kwargs:
                v = ip.resolve(args[0], st)
                c = self.dict_of(ip, v, st) if v[0] == 'ref' else ip.const(v, st)
                if c[0] and isinstance(c[1], dict):
                    new = tuple((k, v[1] if isinstance(v, tuple) and v[0] in (2, 'context') else v) for k, v in tags(c[1]))
                    return [(self.token(t[0], t[1], new, *t[3:]), st)]
                return None
            if name == 'untag' and not args:
                return [(self.token(t[0], t[1], (), *t[3:]), st)]
            if name == 'copy' and not args:
                return [(o, st)]
            if name == 'dump':
                return [(K(('dump of ' + o[1]).encode()), st)]
            if name in ('parse', '_is_mutated'):
                return [(FALSE if name != 'parse' else o, st)]
        return Hooks.call_ext(self, ip, st, name, o, args, kwargs, node, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'cls' and getattr(fn[1], 'qual', '') in self.leaves:
            given = list(args[:1]) + ([kwargs['value']] if 'value' in kwargs else [])
            given = [ip.resolve(x, st) for x in given]
            if len(given) == 1 and given[0] != NONE and len(args) < 2:
                kw = dict((k, ip.const(v, st)) for k, v in kwargs.items() if k != 'value')
                ok, c = ip.const(given[0], st)
                n = self.node(given[0])
                what = repr(c) if ok else given[0][1] if given[0][0] == 'sym' else None
                if what is not None and all(v[0] for v in kw.values()):
                    if n is not None and n[0] in ('value', 'built') and fn[1].qual != 'core.Any':
                        frame.raises.append(('TypeError', st.fork(), node))     # constructors take native values
                        return []
                    return [(self.token('built', fn[1].qual, tags(dict((k, v[1]) for k, v in kw.items())), what), st)]
        return Hooks.call(self, ip, st, fn, args, kwargs, node, frame)

    leaves = frozenset(list(UNIVERSAL) + ['core.Any'])


def implementations(p, base, but, roots, dunders):
    out = {}
    b = p.cls(base)
    for c in sorted(p.asn1_classes(), key=lambda c: (c is not b, c.qual)):
        if b in c.mro and not any(p.cls(x) in c.mro for x in but):
            out.setdefault(tuple(closure(c, r) for r in roots) + tuple(id(c.method(m)) for m in dunders), c)
    return list(out.values())


class Judge(p05.Judge):
    hooks = Assign

    def begin(self, cls, fields, elements, over=None, natives=None):
        o = {'_fields': ('sc', Static.of([('n%d' % i, self.p.cls(f.spec) if f.spec else None, dict(f.params)) for i, f in enumerate(fields)], 'fields')),
             '_spec_callbacks': NONE, '_oid_pair': NONE, '_oid_specs': NONE}
        o.update(over or {})
        return self.prepare(cls, o, elements, natives, '_oid_pair' not in (over or {}))

    def prepare(self, cls, o, elements, natives=None, plain=False):
        h = self.hooks(self.p, cls, o, natives)
        st = p05.State()
        st.heap['s'] = {'__cls__': cls, '__state__': 'fresh', 'children': NONE, '_contents': K(b''.join(elements)) if elements is not None else NONE,
                        '_mutated': FALSE, '_header': NONE, '_trailer': K(b''), '_native': NONE, 'explicit': NONE}
        if plain:
            st.heap['cls:' + cls.qual] = {'__cls__': None, '_oid_nums': NONE}
        ip = Reader(self.p, h, budget=30000)
        setup = cls.method('_setup')
        if setup is not None and '_fields' in o:
            x = self.one(ip, setup, [('ref', 's')], st)
            if x is None or x.kind == 'raise':
                return h, ip, None
            st = x.st
        return h, ip, st

    def assign(self, cls, key, fields, elements, i, arg, want, text, over=None, natives=None, delete=False, before=None):
        """assigns `arg` (a function of the hooks giving an abstract value) to component i; want: token, VOID or a tuple of exceptions"""
        ctx = self.ctx
        if len(ctx.undecided) > 12:
            return
        f = cls.method('__delitem__' if delete else '__setitem__')
        where = '%s:%s' % (f.module.relpath, f.node.lineno)
        what = '%s %s of %s [%s]%s' % ('deleting' if delete else 'assigning %s to' % text, 'component %d' % i, cls.qual, '; '.join(map(repr, fields)),
                                       '' if elements is None else ' decoded from %s' % b''.join(elements).hex())
        h, ip, st = self.begin(cls, fields, elements, over, natives)
        if st is None:
            ctx.undec('%s: class set-up does not fold' % what)
            return
        ctx.count('assignments')
        o = self.one(ip, f, [('ref', 's'), K('n%d' % i)] + ([] if delete else [arg(h)]), st)
        if o is None:
            ctx.undec('%s does not fold to one path' % what)
            return
        if o.kind == 'raise':
            if not isinstance(want, tuple) or want[0] != 'refused' or o.val not in want[1]:
                self.alarm('%s fails' % key, '%s:%s' % (where.split(':')[0], getattr(o.node, 'lineno', '?')), '%s fails with %s' % (what, o.val))
            return
        if isinstance(want, tuple) and want[0] == 'refused':
            self.alarm('%s accepted' % key, where, '%s is not refused' % what)
            return
        get = cls.method('__getitem__')
        st = o.st
        for k in [i] + [k for k in range(len(fields)) if k != i]:
            o = self.one(ip, get, [('ref', 's'), K('n%d' % k)], st)
            if o is None or o.kind == 'raise':
                ctx.undec('%s: reading component %d afterwards does not fold' % (what, k))
                return
            st = o.st
            got = self.component(h, ip.resolve(o.val, st))
            exp = want if k == i else before[k]
            if callable(exp):
                t = exp(self, h, ip, o)
                if t is None:
                    ctx.undec('%s: the component read afterwards is not known' % what)
                elif t:
                    self.alarm('%s wrong' % key, where, '%s makes it %s' % (what, t))
                return
            if got is None:
                ctx.undec('%s: component %d read afterwards is not known' % (what, k))
                return
            if got != exp:
                self.alarm('%s wrong' % key, where, '%s makes component %d %s instead of %s' % (what, k, show(got), show(exp)))
                return


def show(x):
    if isinstance(x, tuple) and x[0] in ('value', 'built'):
        t = ' '.join('[%s] %s' % (v, k.upper()) for k, v in x[2]) or 'untagged'
        return '%s %s %s' % (x[1], t, 'holding %s' % x[3] if x[0] == 'built' else '(%s)' % x[3])
    return p05.show(x)


def dump(token):
    return repr(('dump of T:%r' % (token,)).encode())


TAGGINGS = ({}, {'implicit': 0}, {'explicit': 0}, {'implicit': 3}, {'explicit': 3}, {'implicit': (1, 0)}, {'explicit': (1, 0)})


def value(cls, tagging, name='the value'):
    return lambda h: h.token('value', cls, tags(tagging), name)


def definitions():
    for spec, first, d, sub, other, native in (('core.Integer', 2, 5, 'x509.Version', 'core.OctetString', 9),
                                               ('core.OctetString', 4, b'x', None, 'core.Integer', b'q'),
                                               ('core.UTF8String', 12, 'z', None, 'core.IA5String', 'w')):
        for opt in (None, 'optional', 'default'):
            for t in (None, ('implicit', 0), ('explicit', 0), ('implicit', 3), ('explicit', 3), ('implicit', (1, 0)), ('explicit', (1, 0))):
                yield tagged(spec, first, opt, t, d if opt == 'default' else None), sub, other, native


def structures(ctx, cls, is_set):
    j = Judge(ctx)
    spec = lambda i, s: (s, None)
    oth = [tagged('core.Boolean', 1, None), tagged('core.Integer', 2, 'optional', ('implicit', 7))]
    refused = ('refused', ('TypeError', 'ValueError'))
    for f, sub, other, native in definitions():
        for pos in (0, 1):
            fields = oth[:pos] + [f] + oth[pos:]
            for present in (True, False):
                if not present and not f.opt:
                    continue
                es = [b'\x01\x01\xff', f.octets[0]][::1 if pos else -1] if present else [b'\x01\x01\xff']
                before = (p05.the_set if is_set else p05.sequence)(fields, es, spec)[0]
                run = lambda arg, want, text, **kw: j.assign(cls, kw.pop('key', cls.qual), fields, es, pos, arg, want, text, before=before, **kw)
                mine = tags(f.params)
                run(lambda h: K(native), ('built', f.spec, mine, repr(native)), 'the native value %r' % (native,))
                for t in TAGGINGS:
                    run(value(f.spec, t), ('value', f.spec, mine, 'the value'), 'a value tagged %s' % (t or 'as usual'))
                    if sub:
                        run(value(sub, t), ('value', sub, mine, 'the value'), 'a value of a subtype tagged %s' % (t or 'as usual'))
                    run(value(other, t), refused, 'a value of type %s' % other)
                if f.opt:
                    gone = absent(f)
                    run(lambda h: NONE, gone, 'None')
                run(None, absent(f) if f.opt else refused, '', delete=True, key='%s deletion' % cls.qual)
        # a structure nothing was decoded into
        fields = [f]
        j.assign(cls, '%s unset' % cls.qual, fields, None, 0, lambda h: K(native), ('built', f.spec, tags(f.params), repr(native)), 'the native value', before=[None])
    choices(ctx, j, cls, is_set)
    if not is_set:
        open_types(ctx, j, cls)
    built(ctx, j, cls)


def wrapped(choice, name, index):
    """the component is an instance of the choice that holds the value given"""
    def look(j, h, ip, o):
        v = ip.resolve(o.val, o.st)
        c = ip.cls_of(v, o.st)
        if c is None or v[0] != 'ref':
            return None
        if c is not j.p.cls(choice):
            return 'an instance of %s' % c.qual
        for attr, want in (('chosen', ('value', name[0], (), 'the value')), ('name', name[1])):
            x, _ = c.lookup(attr)
            r = j.one(ip, x.fget, [v], o.st)
            if r is None or r.kind == 'raise':
                return None
            got = h.node(r.val) if attr == 'chosen' else r.val[2] if is_k(r.val) else None
            if got is None:
                return None
            if got != want:
                return 'a choice whose %s is %s' % (attr, show(got))
        return ''
    return look


def choices(ctx, j, cls, is_set):
    for opt in (None, 'optional') if not is_set else ():       # a choice in a set: see P05
        f = Field('x509.Time', (0x17, 0x18), opt)
        fields, es = [f], [b'\x17\x00']
        for spec, name in (('core.UTCTime', 'utc_time'), ('core.GeneralizedTime', 'general_time')):
            j.assign(cls, '%s choice' % cls.qual, fields, es, 0, value(spec, {}), wrapped('x509.Time', (spec, name), 0), 'an alternative (%s)' % spec, before=[None])
        for t in ({}, {'explicit': 0}):
            j.assign(cls, '%s choice' % cls.qual, fields, es, 0, value('x509.Time', t), ('value', 'x509.Time', (), 'the value'), 'a value of the choice', before=[None])
        for v, text in ((value('core.Boolean', {}), 'a value of no alternative'), (lambda h: K('x'), 'a native value')):
            j.assign(cls, '%s choice' % cls.qual, fields, es, 0, v, ('refused', ('TypeError', 'ValueError')), text, before=[None])
    f = tagged('x509.Time', 0, None, ('explicit', 5))
    for t in ({}, {'explicit': 0}, {'explicit': 5}):
        j.assign(cls, '%s choice' % cls.qual, [f], [b'\xa5\x02\x17\x00'], 0, value('x509.Time', t), ('value', 'x509.Time', (('explicit', 5),), 'the value'),
                 'a value of the choice', before=[None])


def open_types(ctx, j, cls):
    p = ctx.prog
    ids = {'known': 'core.Integer', 'other': 'core.IA5String'}
    oid = b'\x06\x01\x2a'
    over = {'_oid_pair': tup(K('n0'), K('n1')), '_oid_specs': ('sc', Static.of(dict((k, p.cls(v)) for k, v in ids.items()), 'oid specs'))}
    for where, t in (('core.Any', None), ('core.Any', ('explicit', 0)), ('core.OctetString', None), ('core.OctetString', ('implicit', 2))):
        f = tagged(where, 4, None, t)
        fields = [Field('core.ObjectIdentifier', 6), f]
        mine = tags(f.params)
        for ident, native in (('known', 9), ('other', 'w')):
            spec = ids[ident]
            es = [oid, (b'\x02\x01\x05' if where == 'core.Any' else b'\x04\x03\x02\x01\x05') if t is None else b'\xa0\x03\x02\x01\x05' if t[0] == 'explicit' else
                  b'\x82\x03\x02\x01\x05']
            first = [('element', 'core.ObjectIdentifier', None, (), oid), None]
            run = lambda arg, want, text: j.assign(cls, '%s open type' % cls.qual, fields, es, 1, arg, want, '%s (identifier: %s)' % (text, ident), over, {oid: ident},
                                                   before=first)
            wrong = 'core.Boolean'
            if where == 'core.Any':
                run(lambda h: K(native), ('built', spec, mine, repr(native)), 'the native value %r' % native)
                for tg in TAGGINGS:
                    run(value(spec, tg), ('value', spec, mine, 'the value'), 'a value of the selected type tagged %s' % (tg or 'as usual'))
                run(value(wrong, {}), ('refused', ('TypeError', 'ValueError')), 'a value of another type')
            else:
                run(lambda h: K(native), ('built', where, mine, dump(('built', spec, (), repr(native)))), 'the native value %r' % native)
                run(value(spec, {}), ('built', where, mine, dump(('value', spec, (), 'the value'))), 'a value of the selected type')
                for tg in TAGGINGS:
                    run(value(where, tg), ('value', where, mine, 'the value'), 'an octet string tagged %s' % (tg or 'as usual'))
                run(value(wrong, {}), ('refused', ('TypeError', 'ValueError')), 'a value of another type')


def native_dict(ip, st, pairs):
    return ip.new_dict([(K(k), K(v)) for k, v in pairs], st, None)


def built(ctx, j, cls):
    """construction from a dict of native values, in any order, and from defaults"""
    init, get = cls.method('__init__'), cls.method('__getitem__')
    where = '%s:%s' % (init.module.relpath, init.node.lineno)
    fields = [tagged('core.Integer', 2, None), tagged('core.OctetString', 4, 'optional', ('implicit', 0)), tagged('core.UTF8String', 12, 'default', ('explicit', 1), 'd')]
    natives = {'n0': 5, 'n1': b'q', 'n2': 'w'}
    for names in (['n0'], ['n0', 'n1'], ['n2', 'n0'], ['n2', 'n1', 'n0'], ['n1']):
        for how in ('value', 'default', 'both'):
            h, ip, st = j.begin(cls, fields, None)
            if st is None:
                return
            del st.heap['s']
            st.heap['s'] = {'__cls__': cls, '__state__': 'fresh'}
            d = native_dict(ip, st, [(n, natives[n]) for n in names])
            kw = {how: d} if how != 'both' else {'value': d, 'default': native_dict(ip, st, [('n0', 77)])}
            what = 'constructing %s [%s] with %s=%s' % (cls.qual, '; '.join(map(repr, fields)), how, dict((n, natives[n]) for n in names))
            ctx.count('constructions')
            try:
                outs = [o for o in ip.run(init, [('ref', 's')], st, kw) if o.kind in ('raise', 'return', 'fall')]
            except TooComplex:
                outs = []
            if len(outs) != 1:
                ctx.undec('%s does not fold to one path' % what)
                continue
            if outs[0].kind == 'raise':
                j.alarm('%s construction fails' % cls.qual, where, '%s fails with %s' % (what, outs[0].val))
                continue
            st = outs[0].st
            for i, f in enumerate(fields):
                n = 'n%d' % i
                exp = ('built', f.spec, tags(f.params), repr(natives[n])) if n in names else absent(f) if f.opt else None
                if exp is None:
                    continue
                o = j.one(ip, get, [('ref', 's'), K(n)], st)
                if o is None or o.kind == 'raise' or j.component(h, o.val) is None:
                    ctx.undec('%s: reading component %d does not fold' % (what, i))
                    break
                st = o.st
                got = j.component(h, o.val)
                if got != exp:
                    j.alarm('%s construction' % cls.qual, where, '%s makes component %d %s instead of %s' % (what, i, show(got), show(exp)))
    # names the structure does not have
    h, ip, st = j.begin(cls, fields, None)
    st.heap['s'] = {'__cls__': cls, '__state__': 'fresh'}
    d = native_dict(ip, st, [('n0', 5), ('unknown', 1)])
    try:
        outs = [o for o in ip.run(init, [('ref', 's')], st, {'value': d}) if o.kind in ('raise', 'return', 'fall')]
    except TooComplex:
        outs = []
    if len(outs) != 1:
        ctx.undec('constructing %s with an unknown name does not fold' % cls.qual)
    elif outs[0].kind != 'raise' or outs[0].val not in ('ValueError', 'KeyError', 'TypeError'):
        j.alarm('%s unknown name' % cls.qual, where, 'constructing %s with a name it has no component of is not refused' % cls.qual)


def collections(ctx, cls):
    j = Judge(ctx)
    p = ctx.prog
    E = [b'\x02\x01\x05', b'\x02\x01\x03']
    refused = ('refused', ('TypeError', 'ValueError'))
    for spec, native in (('core.Integer', 9), ('core.UTF8String', 'w'), ('x509.Time', None), ('core.Any', None)):
        over = {'_child_spec': ('cls', p.cls(spec))}
        cases = []
        if native is not None:
            cases.append((lambda h: K(native), ('built', spec, (), repr(native)), 'a native value'))
        else:
            cases.append((lambda h: K('x'), refused, 'a native value'))
        for t in TAGGINGS:
            if spec != 'core.Any' and not (spec == 'x509.Time' and 'implicit' in t):
                cases.append((value(spec, t), ('value', spec, (), 'the value'), 'a value tagged %s' % (t or 'as usual')))
        if spec == 'core.Any':
            cases.append((value('core.Integer', {}), ('value', 'core.Integer', (), 'the value'), 'a value'))
        if spec == 'x509.Time':
            cases.append((value('core.UTCTime', {}), wrapped('x509.Time', ('core.UTCTime', 'utc_time'), 0), 'an alternative'))
        if spec != 'core.Any':
            cases.append((value('core.Null', {}), refused, 'a value of another type'))
        for arg, want, text in cases:
            for op, i in (('append', 2), ('__setitem__', 0), ('__setitem__', 1), ('__setitem__', 2), ('__init__', 0), ('default', 0)):
                element(ctx, j, cls, spec, over, E, arg, want, text, op, i)
        # removal
        for i in (0, 1):
            h, ip, st = j.prepare(cls, dict(over), E)
            o = j.one(ip, cls.method('__delitem__'), [('ref', 's'), K(i)], st)
            left = j.one(ip, cls.method('__getitem__'), [('ref', 's'), K(0)], o.st) if o is not None and o.kind != 'raise' else None
            n = j.one(ip, cls.method('__len__'), [('ref', 's')], left.st) if left is not None and left.kind != 'raise' else None
            if n is None or not is_k(n.val) or h.node(left.val) is None:
                ctx.undec('%s: removing element %d does not fold' % (cls.qual, i))
            elif n.val != K(1) or h.node(left.val)[-1] != E[1 - i]:
                j.alarm('%s removal' % cls.qual, '%s:%s' % (cls.method('__delitem__').module.relpath, cls.method('__delitem__').node.lineno),
                        'removing element %d of %s leaves %s elements, the first %s' % (i, cls.qual, n.val[2], show(h.node(left.val))))


def element(ctx, j, cls, spec, over, E, arg, want, text, op, i):
    if len(ctx.undecided) > 12:
        return
    f = cls.method(op if op != 'default' else '__init__')
    where = '%s:%s' % (f.module.relpath, f.node.lineno)
    h, ip, st = j.prepare(cls, dict(over), E)
    v = arg(h)
    what = {'append': 'appending %s to %s of %s', '__setitem__': 'assigning %s to an element of %s of %s', '__init__': 'constructing from %s %s of %s',
            'default': 'using %s as the default of %s of %s'}[op] % (text, cls.qual, spec)
    ctx.count('elements assigned')
    try:
        if op in ('__init__', 'default'):
            st.heap['s'] = {'__cls__': cls, '__state__': 'fresh'}
            lst = ip.new_container('list', (v, v), st, None)
            outs = ip.run(f, [('ref', 's')], st, {'value' if op == '__init__' else 'default': lst})
            k, before = 1, []
        else:
            outs = ip.run(f, [('ref', 's')] + ([K(i)] if op == '__setitem__' else []) + [v], st)
            k, before = i, E
    except TooComplex:
        outs = []
    outs = [o for o in outs if o.kind in ('raise', 'return', 'fall')]
    if len(outs) != 1:
        ctx.undec('%s does not fold to one path' % what)
        return
    o = outs[0]
    key = '%s elements' % cls.qual
    if o.kind == 'raise':
        if not isinstance(want, tuple) or want[0] != 'refused' or o.val not in want[1]:
            j.alarm('%s fail' % key, '%s:%s' % (where.split(':')[0], getattr(o.node, 'lineno', '?')), '%s fails with %s' % (what, o.val))
        return
    if isinstance(want, tuple) and want[0] == 'refused':
        j.alarm('%s accepted' % key, where, '%s is not refused' % what)
        return
    st = o.st
    for n in [k] + [n for n in range(len(before)) if n != k]:
        o = j.one(ip, cls.method('__getitem__'), [('ref', 's'), K(n)], st)
        if o is None or o.kind == 'raise':
            ctx.undec('%s: reading element %d afterwards does not fold' % (what, n))
            return
        st = o.st
        if n == k and callable(want):
            t = want(j, h, ip, o)
            if t is None:
                ctx.undec('%s: the element read afterwards is not known' % what)
            elif t:
                j.alarm('%s wrong' % key, where, '%s makes it %s' % (what, t))
            return
        got = j.component(h, ip.resolve(o.val, st))
        exp = want if n == k else ('element', spec, None, (), E[n])
        if got is None:
            ctx.undec('%s: element %d read afterwards is not known' % (what, n))
        elif got != exp:
            j.alarm('%s wrong' % key, where, '%s makes element %d %s instead of %s' % (what, n, show(got), show(exp)))


def work(ctx, item):
    kind, qual = item
    cls = ctx.prog.cls(qual)
    if kind == 'of':
        collections(ctx, cls)
    else:
        structures(ctx, cls, kind == 'set')
    ctx.count('implementations')


def check(ctx):
    p = ctx.prog
    r, d = ('_make_value', '_determine_spec', '_lazy_child'), ('__getitem__',)
    items = [('set', c.qual) for c in implementations(p, 'core.Set', (), r, d)]
    items += [('sequence', c.qual) for c in implementations(p, 'core.Sequence', ('core.Set',), r, d)]
    items += [('of', c.qual) for c in implementations(p, 'core.SequenceOf', (), ('_make_value', 'append'), ('__getitem__', '__setitem__'))]
    ctx.spread(items, work)
    ctx.need('implementations', 3)
    ctx.need('assignments', 200)
