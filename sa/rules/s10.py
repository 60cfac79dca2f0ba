"""S10: builders of names and key containers produce the structure their arguments describe."""
from ..flow import State, TooComplex, K, NONE, is_k
from ..model import ClassInfo
from . import s08
from .s08 import Node, VOID, leaf, rec

RULE = ('for every attribute a name can be built from, several attributes in every given order, both string forms and ready-made values, and for every kind of key given as a value or as '
        'bytes: the structure built has exactly the components the documentation and RFC 5280, 5208, 3279, 4055 and 5915 prescribe, the arguments are not modified, '
        'and anything else is refused')
EXPLANATION = ('Name.build, PrivateKeyInfo.wrap and PublicKeyInfo.wrap are folded with their arguments fixed; constructor calls and component assignments make a tree, which is '
               'compared with an independently written one.')
ASSUMPTIONS = ['constructors and assignments store what they are given under the type of the component (P06, M01)', 'load() gives the value the bytes encode (P01, P05)']

ORDER = ['incorporation_country', 'incorporation_state_or_province', 'incorporation_locality', 'business_category', 'serial_number', 'country_name', 'postal_code',
         'state_or_province_name', 'locality_name', 'street_address', 'organization_name', 'organizational_unit_name', 'title', 'common_name', 'user_id', 'initials',
         'generation_qualifier', 'surname', 'given_name', 'name', 'pseudonym', 'dn_qualifier', 'telephone_number', 'email_address', 'domain_component',
         'name_distinguisher', 'organization_identifier', 'tpm_manufacturer', 'tpm_model', 'tpm_version', 'platform_manufacturer', 'platform_model', 'platform_version']
OTHERS = ['unique_identifier']
FORMS = {'telephone_number': 'core.PrintableString', 'email_address': 'x509.EmailAddress', 'domain_component': 'x509.DNSName', 'tpm_manufacturer': 'core.UTF8String',
         'tpm_model': 'core.UTF8String', 'tpm_version': 'core.UTF8String', 'platform_manufacturer': 'core.UTF8String', 'platform_model': 'core.UTF8String',
         'platform_version': 'core.UTF8String', 'unique_identifier': 'core.OctetBitString'}
PRINTABLE = ('dn_qualifier', 'country_name', 'serial_number')     # RFC 5280 appendix A
DOTTED = {'2.5.4.3': 'common_name', '2.5.4.6': 'country_name', '2.5.4.10': 'organization_name', '1.2.840.113549.1.9.1': 'email_address'}


class Hooks(s08.Hooks):
    def __init__(self, prog, encodings=()):
        s08.Hooks.__init__(self, prog)
        self.encodings = dict(encodings)
        self.kept = []
        for n, b in (('sequence', 'core.Sequence'), ('of', 'core.SequenceOf'), ('choice', 'core.Choice'), ('value', 'core.Asn1Value')):
            setattr(self, 'c_' + n, prog.cls(b))

    def make(self, st, node):
        self.kept.append(node)
        return [(self.ref(st, node), st)]

    def of(self, ip, st, v):
        """what an abstract value is made of: Node, VOID, constant, list; None if unknown"""
        v = ip.resolve(v, st)
        if v == self.void:
            return VOID
        n = self.node(v)
        if n is not None:
            return n
        ok, c = ip.const(v, st)
        if ok:
            return ('k', c)
        xs = ip.items(v, st)
        if xs is not None:
            return [self.of(ip, st, x) for x in xs[1]]
        if v[0] == 'ref' and st.heap.get(v[1], {}).get('__cls__') == 'dict':
            ps = ip.pairs(v, st)
            if ps is not None and all(is_k(ip.resolve(k, st)) for k, x in ps):
                return dict((ip.resolve(k, st)[2], self.of(ip, st, x)) for k, x in ps)
        return None

    def built(self, ip, st, cls, args, kwargs):
        kw = dict((k, self.of(ip, st, v)) for k, v in kwargs.items())
        pos = [self.of(ip, st, v) for v in args]
        if cls.issub(self.c_choice):
            for n, v in zip(('name', 'value'), pos):
                kw[n] = v
            a, v = kw.get('name'), kw.get('value')
            if isinstance(a, dict) and len(a) == 1:
                (a, v), = a.items()
                a = ('k', a)
            if a is None or a[0] != 'k' or v is None:
                return None
            return Node(cls.qual, alt=(a[1], v))
        if len(pos) > 1 or set(kw) - set(['value']):
            return None
        v = pos[0] if pos else kw.get('value', ())
        if cls.issub(self.c_sequence):
            if v == () or v == ('k', None):
                v = {}
            return Node(cls.qual, comps=dict(v)) if isinstance(v, dict) else None
        if cls.issub(self.c_of):
            if v == () or v == ('k', None):
                v = []
            if isinstance(v, tuple) and v[0] == 'k' and v[1] in ([], ()):
                v = []
            return Node(cls.qual, items=list(v)) if isinstance(v, list) else None
        if v == ():
            return Node(cls.qual)
        return Node(cls.qual, given=v) if v is not None else None

    def getattr(self, ip, st, obj, attr, node, frame):
        n = self.node(obj)
        if n is not None and attr in ('native', 'contents') and hasattr(n, 'given'):
            return [(K(n.given[1]), st)] if isinstance(n.given, tuple) else None
        return s08.Hooks.getattr(self, ip, st, obj, attr, node, frame)

    def getitem(self, ip, st, obj, key, node, frame):
        n = self.node(obj)
        if n is not None and n.comps is not None and is_k(key):
            v = n.comps.get(key[2], VOID)
            if isinstance(v, tuple):
                return [(K(v[1]), st)]
            if v is VOID or isinstance(v, Node):
                return [(self.ref(st, v), st)]
        return s08.Hooks.getitem(self, ip, st, obj, key, node, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'ext' and fn[1].split('.')[-1] == 'getattr' and len(args) == 3 and not kwargs:
            v, a = ip.resolve(args[0], st), ip.resolve(args[1], st)
            if is_k(v) and is_k(a) and not hasattr(v[2], a[2]):
                return [(args[2], st)]
        if fn[0] == 'cls' and isinstance(fn[1], ClassInfo) and fn[1].issub(self.c_value):
            b = self.built(ip, st, fn[1], args, kwargs)
            return self.make(st, b) if b is not None else None
        if fn[0] == 'fn' and fn[2] is not None:
            n, name = self.node(fn[2]), fn[1].name
            if n is not None:
                if name == '__setitem__' and len(args) == 2 and n.comps is not None and is_k(args[0]):
                    v = self.of(ip, st, args[1])
                    if v is not None:
                        n.comps[args[0][2]] = VOID if v == ('k', None) else v
                        return [(NONE, st)]
                if name == '__delitem__' and len(args) == 1 and n.comps is not None and is_k(args[0]):
                    n.comps[args[0][2]] = VOID
                    return [(NONE, st)]
                if name == 'append' and len(args) == 1 and n.items is not None:
                    v = self.of(ip, st, args[0])
                    if v is not None:
                        n.items.append(v)
                        return [(NONE, st)]
                if name == 'copy' and not args:
                    m = Node(n.cls)
                    m.__dict__.update(n.__dict__, comps=dict(n.comps) if n.comps is not None else None, items=list(n.items) if n.items is not None else None)
                    return self.make(st, m)
                if name == 'untag' and not args:
                    m = Node(n.cls)
                    m.__dict__.update(n.__dict__, tag=None, base=getattr(n, 'base', n))
                    return self.make(st, m)
                if name == 'dump':
                    return [(K(self.bytes_of(n)), st)]
            if name == 'load' and args and fn[2][0] == 'cls':
                ok, c = ip.const(args[0], st)
                if ok and c in self.encodings:
                    m = self.encodings[c]
                    return self.make(st, m)
                if not ok or not isinstance(c, bytes):
                    frame.raises.append(('TypeError', st.fork(), node))
                    return []
        return s08.Hooks.call(self, ip, st, fn, args, kwargs, node, frame)

    def bytes_of(self, n, plain=False):
        b = getattr(n, 'base', n)
        if n.tag is None or plain:
            for k, v in self.encodings.items():
                if v is b:
                    return k
        return b'%sencoding %d of %s' % (b'' if n.tag is None or plain else b'tagged ', id(b), n.cls.encode())


def same(h, exp, got):
    """exp: ('leaf', types, native), ('rec', {..}), ('list', [..]), ('alt', names, exp), ('is', Node), ('octets', types, Node), None: absent"""
    if exp is None:
        return got is VOID or got == ('k', None)
    if exp[0] == 'is':
        g, e = got, exp[1]
        return g is e or isinstance(g, Node) and isinstance(e, Node) and g.cls == e.cls and e.comps is not None and g.comps is not None and \
            dict((k, v) for k, v in g.comps.items() if v is not VOID) == dict((k, v) for k, v in e.comps.items() if v is not VOID)
    if exp[0] == 'leaf':
        if isinstance(got, tuple):
            return got[1] == exp[2]
        if not isinstance(got, Node) or exp[1] and got.cls not in exp[1]:
            return False
        v = getattr(got, 'given', ('k', got.native))
        return isinstance(v, tuple) and v[1] == exp[2]
    if exp[0] == 'octets':
        if not isinstance(got, Node):
            return got == ('k', h.bytes_of(exp[2], True))
        return getattr(got, 'base', got) is exp[2] or got.cls in exp[1] and getattr(got, 'given', None) == ('k', h.bytes_of(exp[2], True))
    if exp[0] == 'alt':
        if not isinstance(got, Node):
            return False
        if got.alt is None:
            return exp[1] and got.cls in exp[3] and same(h, exp[2], got)        # an alternative is wrapped by the component (P06)
        return got.alt[0] in exp[1] and same(h, exp[2], got.alt[1])
    if exp[0] == 'rec':
        c = got if isinstance(got, dict) else got.comps if isinstance(got, Node) else None
        return c is not None and all(same(h, exp[1].get(k), c.get(k, VOID)) for k in set(exp[1]) | set(c))
    if exp[0] == 'list':
        c = got if isinstance(got, list) else got.items if isinstance(got, Node) else None
        return c is not None and len(c) == len(exp[1]) and all(same(h, e, g) for e, g in zip(exp[1], c))
    return False


def show(v, d=0):
    if isinstance(v, Node):
        if v.comps is not None:
            return '{%s}' % ', '.join('%s: %s' % (k, show(x)) for k, x in sorted(v.comps.items()) if x is not VOID)
        if v.items is not None:
            return '[%s]' % ', '.join(map(show, v.items))
        if v.alt is not None:
            return '%s(%s)' % (v.cls, show(v.alt[1]))
        g = getattr(v, 'given', None)
        return '%s %s' % (v.cls, show(g) if g is not None else '' if v.native is None else repr(v.native))
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, show(x)) for k, x in v.items())
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(show, v))
    return repr(v[1]) if isinstance(v, tuple) else repr(v)


class Judge(object):
    def __init__(self, ctx, cls, name):
        self.ctx, self.cls, self.name = ctx, ctx.prog.cls(cls), name
        self.f = self.cls.method(name) if self.cls is not None else None
        if self.f is None:
            ctx.undec('%s.%s was not found' % (cls, name))

    def run(self, args, exp, what, encodings=(), kwargs=None):
        """args: functions of (hooks, interpreter, state); exp: see same(), or an exception name"""
        ctx, f = self.ctx, self.f
        if f is None:
            return
        ctx.count('calls')
        if len(ctx.undecided) > 12:
            return
        h = Hooks(ctx.prog, encodings)
        ip = s08.Reader(ctx.prog, h, budget=60000)
        st = State()
        vals = [a(h, ip, st) for a in args]
        nodes = [h.node(v) for v in vals] + [v for _, v in encodings]
        before = [dict(n.comps) if n is not None and n.comps is not None else None for n in nodes]
        title = '%s.%s of %s' % (self.cls.qual, self.name, what)
        where = '%s:%s' % (f.module.relpath, f.node.lineno)
        try:
            outs = [o for o in ip.run(f, [('cls', self.cls)] + vals, st, dict(kwargs or {})) if o.kind in ('raise', 'return', 'fall')]
        except TooComplex:
            outs = []
        if len(outs) != 1:
            ctx.undec('%s does not fold to one path' % title)
            return
        o = outs[0]
        key = '%s.%s' % (self.cls.qual, self.name)
        if o.kind == 'raise':
            if not isinstance(exp, str) or o.val != exp:
                ctx.report('%s fails' % key, '%s:%s' % (f.module.relpath, getattr(o.node, 'lineno', '?')), '%s fails with %s' % (title, o.val))
            return
        if isinstance(exp, str):
            ctx.report('%s accepted' % key, where, '%s does not fail with %s' % (title, exp))
            return
        got = h.of(ip, o.st, o.val if o.val is not None else NONE)
        if got is None:
            ctx.undec('%s: the result is not known' % title)
            return
        if not isinstance(got, Node) or got.cls != self.cls.qual or not same(h, exp, got):
            ctx.report('%s wrong' % key, where, '%s gives %s' % (title, show(got)[:300]))
        for n, b in zip(nodes, before):
            if b is not None and n not in [x for _, x in encodings] and n.comps != b:
                ctx.report('%s argument' % key, where, '%s changes its argument' % title)


def names(ctx):
    j = Judge(ctx, 'x509.Name', 'build')

    def attr(n, v, printable, given=None):
        n = DOTTED.get(n, n)
        if given is not None:
            val = ('is', given)
        elif n in FORMS:
            val = ('leaf', [FORMS[n]], v)
        else:
            how = ('printable_string', 'core.PrintableString') if printable or n in PRINTABLE else ('utf8_string', 'core.UTF8String')
            val = ('alt', [how[0]], ('leaf', [how[1]], v), [how[1]])
        return ('list', [('rec', {'type': ('leaf', None, n), 'value': val})])

    def expect(pairs, printable, given=None):
        key = lambda kv: (ORDER.index(DOTTED.get(kv[0], kv[0])) if DOTTED.get(kv[0], kv[0]) in ORDER else len(ORDER), DOTTED.get(kv[0], kv[0]))
        return ('alt', [''], ('list', [attr(k, v, printable, (given or {}).get(k)) for k, v in sorted(pairs, key=key)]), ['x509.RDNSequence'])

    def call(pairs, printable, exp, given=None):
        def d(h, ip, st):
            return ip.new_dict([(K(k), h.ref(st, given[k]) if given and k in given else K(v)) for k, v in pairs], st, None)
        kw = {} if printable is None else {'use_printable': K(printable)}
        j.run([d], exp if isinstance(exp, str) else expect(pairs, printable, given),
              '%s%s' % (dict((k, 'a ready-made value' if given and k in given else v) for k, v in pairs), '' if printable is None else ', use_printable=%s' % printable), kwargs=kw)
    every = ORDER + OTHERS
    for n in every + sorted(DOTTED):
        for pr in (None, False, True):
            call([(n, 'text')], pr, None)
    several = [['common_name', 'country_name'], ['country_name', 'common_name'], ['email_address', 'common_name', 'organization_name', 'country_name'],
               ['tpm_model', 'name_distinguisher', 'common_name', 'tpm_manufacturer'], ['2.5.4.10', '2.5.4.6', 'common_name'], list(reversed(every)), sorted(every)]
    for ns in several:
        for pr in (None, True):
            call([(n, 'text %d' % i) for i, n in enumerate(ns)], pr, None)
    call([], None, None)
    for n, q in (('common_name', 'x509.DirectoryString'), ('country_name', 'x509.DirectoryString'), ('email_address', 'x509.EmailAddress'), ('telephone_number', 'core.PrintableString')):
        v = Node(q, alt=('bmp_string', leaf('core.BMPString', 'x'))) if q.endswith('DirectoryString') else leaf(q, 'x')
        for pr in (None, True):
            call([(n, None)], pr, None, {n: v})
            call([(n, None), ('title', 'text')], pr, None, {n: v})
    for n in ('no_such_attribute', '1.2.3.4'):
        call([(n, 'text')], None, 'ValueError')
        call([('common_name', 'text'), (n, 'text')], None, 'ValueError')


NULL = ('leaf', ['core.Null'], None)


def keys(ctx):
    j = Judge(ctx, 'keys.PrivateKeyInfo', 'wrap')
    num = lambda x: leaf('core.Integer', x)

    def rsa():
        return rec('keys.RSAPrivateKey', modulus=num(77), private_exponent=num(5))

    def dsa():
        return rec('keys.DSAPrivateKey', version=num(0), p=num(11), q=num(12), g=num(13), public_key=num(14), private_key=num(15))

    def ec(params=True):
        d = dict(version=leaf('core.Integer', 'ecPrivkeyVer1'), private_key=leaf('keys.IntegerOctetString', 9), public_key=leaf('keys.ECPointBitString', b'\x04ab'))
        if params:
            d['parameters'] = Node('keys.ECDomainParameters', alt=('named', leaf('keys.NamedCurve', 'secp256r1')), tag=0)
        return Node('keys.ECPrivateKey', comps=d)

    def container(a, params, key):
        return ('rec', {'version': ('leaf', None, 0), 'private_key_algorithm': ('rec', {'algorithm': ('leaf', None, a), 'parameters': params}), 'private_key': key})
    for make, a in ((rsa, 'rsa'), (rsa, 'rsassa_pss'), (dsa, 'dsa'), (ec, 'ec')):
        for how in ('a value', 'bytes'):
            k = make()
            if a == 'dsa':
                exp = container(a, ('rec', dict((x, ('is', k.comps[x])) for x in 'pqg')), ('is', k.comps['private_key']))
            elif a == 'ec':
                bare = Node(k.cls, comps=dict((x, v) for x, v in k.comps.items() if x != 'parameters'))
                exp = container(a, ('is', k.comps['parameters']), ('is', bare))
            else:
                exp = container(a, NULL if a == 'rsa' else None, ('is', k))
            arg = (lambda h, ip, st: h.ref(st, k)) if how == 'a value' else (lambda h, ip, st: K(b'the encoding'))
            j.run([arg, lambda h, ip, st: K(a)], exp, '%s of a %s key' % (how, a), [(b'the encoding', k)] if how == 'bytes' else ())
    bad = [('an integer', lambda h, ip, st: K(5), 'rsa', 'TypeError'), ('text', lambda h, ip, st: K('key'), 'dsa', 'TypeError')]
    for a in ('dh', 'ed25519', 'RSA', 'rsa ', ''):
        bad.append(('bytes', lambda h, ip, st: K(b'the encoding'), a, 'ValueError'))
    for what, arg, a, err in bad:
        j.run([arg, lambda h, ip, st: K(a)], err, '%s for %r' % (what, a), [(b'the encoding', rsa())])
    j = Judge(ctx, 'keys.PublicKeyInfo', 'wrap')
    for a in ('rsa', 'rsassa_pss'):
        for how in ('a value', 'bytes'):
            k = rec('keys.RSAPublicKey', tag=None if how == 'bytes' else 3, modulus=num(77), public_exponent=num(3))
            exp = ('rec', {'algorithm': ('rec', {'algorithm': ('leaf', None, a), 'parameters': NULL if a == 'rsa' else None}),
                           'public_key': ('octets', ['core.ParsableOctetBitString'], k)})
            arg = (lambda h, ip, st: h.ref(st, k)) if how == 'a value' else (lambda h, ip, st: K(b'the encoding'))
            j.run([arg, lambda h, ip, st: K(a)], exp, '%s of a %s key' % (how, a), [(b'the encoding', k)] if how == 'bytes' else ())
    for what, arg, a, err in bad[:1] + [('text', lambda h, ip, st: K('key'), 'rsa', 'TypeError')] + [('bytes', bad[2][1], x, 'ValueError') for x in ('dsa', 'ec', 'dh', '')]:
        j.run([arg, lambda h, ip, st: K(a)], err, '%s for %r' % (what, a), [(b'the encoding', rsa())])


def check(ctx):
    names(ctx)
    keys(ctx)
    ctx.need('calls', 80)
