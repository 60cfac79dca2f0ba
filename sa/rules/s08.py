"""S08: shortcut accessors give the component, or the documented function of components, they are named after."""
import ast
import hashlib
import ipaddress
import re
import socket
import zlib

from ..build import ClassState
from ..flow import K, NONE, State, TooComplex, is_k, wrap
from ..fold import Fold
from ..model import FuncInfo, PropertyInfo

RULE = ('for each structure of a family (components present or absent, several names, points and entries of every kind, equal and different issuers and key '
        'identifiers), whichever accessor is read first, each accessor evaluates to the value its documentation defines over the components')
EXPLANATION = ('Every accessor is interpreted from its source on a structure given as a tree of components: component access, iteration, choices and '
               'encodings are primitives of the interpretation, everything else (memo fields, helper methods, filters, digests of encodings) is followed in '
               'the source with constants folded. The result is compared with a definition of the accessor written from its documentation and RFC 5280/6125.')
ASSUMPTIONS = ['component access, iteration and encoding behave as judged by P05, S03 and M08', 'names compare as judged by E01',
               'digest functions and socket.inet_pton are those of the standard library']


class Void(object):
    def __repr__(self):
        return 'absent'


VOID = Void()


class Node(object):
    """One value: its type and what it is made of"""
    def __init__(self, cls, native=None, tag=None, **kw):
        self.cls, self.native, self.tag = cls, native, tag
        self.comps = self.items = self.alt = self.parsed = self.text = None
        self.__dict__.update(kw)

    def get(self, path):
        cur = self
        for x in path.split('/'):
            cur = cur.comps.get(x, VOID)
            if cur is VOID:
                return VOID
        return cur

    def encoding(self, plain=False):
        """A constant standing for the encoding; equal exactly for equal values of equal tagging"""
        parts = [self.cls.encode()]
        if self.comps is not None:
            parts += [k.encode() + b'=' + (v.encoding() if v is not VOID else b'-') for k, v in self.comps.items()]
        if self.items is not None:
            parts += [x.encoding() for x in self.items]
        if self.alt is not None:
            parts += [self.alt[0].encode(), self.alt[1].encoding()]
        if self.native is not None:
            parts.append(repr(self.native).encode())
        if self.parsed is not None:
            parts.append(self.parsed.encoding())
        return b'<' + (b'' if plain or self.tag is None else b'[%d]' % self.tag) + b'|'.join(parts) + b'>'

    def octets(self):
        return b'octets of ' + self.encoding(True)

    def value(self):
        """the native view, as far as it matters: it is empty exactly when the value is"""
        if self.alt is not None:
            return self.alt[1].value()
        if self.items is not None:
            return [x.value() for x in self.items]
        if self.comps is not None:
            return dict((k, v.value() if v is not VOID else None) for k, v in self.comps.items())
        return self.native


def rec(cls, tag=None, **comps):
    return Node(cls, tag=tag, comps=comps)


def lst(cls, *items):
    return Node(cls, items=list(items))


def alt(cls, name, node, tag=None):
    return Node(cls, alt=(name, node), tag=tag)


def leaf(cls, native, tag=None):
    return Node(cls, native, tag)


class Hash(object):
    def __init__(self, name, data):
        self.name, self.data = name, data


class Hooks(ClassState):
    unroll = 200
    max_states = 60

    def __init__(self, prog):
        ClassState.__init__(self)
        self.p = prog
        self.void = wrap(prog.modules['core'].env['VOID'])
        self.nodes, self.ids = {}, {}

    def inline(self, ip, fi, bound, frame):
        return fi.module.name not in ('_errors', 'parser') and not (fi.module.name == '_types' and fi.name == 'type_name')

    def ref(self, st, node):
        if node is VOID:
            return self.void
        i = self.ids.get(id(node))
        if i is None:
            i = self.ids[id(node)] = 'n%d' % len(self.ids)
            self.nodes[i] = node
        if i not in st.heap:
            st.heap[i] = {'__cls__': self.p.cls(node.cls), '__state__': 'fresh'}
        return ('ref', i)

    def node(self, v):
        return self.nodes.get(v[1]) if v[0] == 'ref' else None

    def const(self, ip, st, v, node):
        if isinstance(v, list):
            return ip.new_container('list', tuple(self.const(ip, st, x, node) for x in v), st, node)
        if isinstance(v, dict):
            return ip.new_dict([(K(k), self.const(ip, st, x, node)) for k, x in v.items()], st, node)
        return K(v)

    def getattr(self, ip, st, obj, attr, node, frame):
        if obj == self.void:
            return [(NONE, st)] if attr == 'native' else None
        n = self.node(obj)
        if n is None:
            return ClassState.getattr(self, ip, st, obj, attr, node, frame)
        if attr == 'native' and n.cls != 'x509.Name' and (n.native is not None or n.alt is not None or n.items is not None or n.comps is not None):
            return [(self.const(ip, st, n.value(), node), st)]
        if attr == 'parsed' and n.parsed is not None:
            return [(self.ref(st, n.parsed), st)]
        if attr in ('chosen', 'name') and n.alt is not None:
            return [(self.ref(st, n.alt[1]) if attr == 'chosen' else K(n.alt[0]), st)]
        if attr == 'hashable' and n.cls == 'x509.Name':
            return [(K(n.encoding(True).decode('latin1')), st)]
        if attr == 'contents' and n.comps is None:
            return [(K(n.octets()), st)]
        if attr == 'children' and n.items is not None:
            return [(ip.new_container('list', tuple(self.ref(st, x) for x in n.items), st, node), st)]
        return ClassState.getattr(self, ip, st, obj, attr, node, frame)

    def getitem(self, ip, st, obj, key, node, frame):
        n = self.node(obj)
        if n is None:
            return ClassState.getitem(self, ip, st, obj, key, node, frame)
        if n.comps is not None and is_k(key):
            if key[2] in n.comps:
                return [(self.ref(st, n.comps[key[2]]), st)]
            return [(('sym', 'component %r' % (key[2],), None), st)]
        if n.items is not None and is_k(key) and isinstance(key[2], int):
            if -len(n.items) <= key[2] < len(n.items):
                return [(self.ref(st, n.items[key[2]]), st)]
            frame.raises.append(('IndexError', st.fork(), node))
            return []
        return None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[2] is not None:
            n = self.node(fn[2])
            name = fn[1].name
            if n is not None:
                if name == 'dump':
                    return [(K(n.encoding()), st)]
                if name == 'untag':
                    m = Node(n.cls)
                    m.__dict__.update(n.__dict__, tag=None)
                    self.keep = getattr(self, 'keep', []) + [m]
                    return [(self.ref(st, m), st)]
                if name == '__getitem__' and args:
                    return self.getitem(ip, st, fn[2], args[0], node, frame)
                if name == '__len__':
                    return [(K(len(n.items if n.items is not None else n.comps or ())), st)]
                if name == '__iter__' and n.items is not None:
                    return [(fn[2], st)]
                if name in ('__bytes__', '__str__') and fn[1].module.name == 'core':
                    return [(K(n.octets()), st)]
                if name in ('__eq__', '__ne__') and n.cls == 'x509.Name':
                    m = self.node(ip.resolve(args[0], st)) if args else None
                    if m is not None:
                        same = m.cls == n.cls and m.encoding(True) == n.encoding(True)
                        return [(K(same if name == '__eq__' else not same), st)]
        if fn[0] == 'fn' and fn[1].name == 'load' and args and fn[1].module.name == 'core':
            ok, c = ip.const(args[0], st)
            b = fn[2]
            if ok and isinstance(c, bytes) and b is not None and b[0] == 'cls':
                m = Node(b[1].qual, native=c)
                self.keep = getattr(self, 'keep', []) + [m]
                return [(self.ref(st, m), st)]
        name = fn[1].split('builtins.')[-1] if fn[0] == 'ext' else fn[1].qual if fn[0] == 'fn' else ''
        r = self.ext(ip, st, name, fn, args, kwargs, node, frame)
        return r if r is not None else ClassState.call(self, ip, st, fn, args, kwargs, node, frame)

    def ext(self, ip, st, name, fn, args, kwargs, node, frame):
        short = name.split('.')[-1]
        vs = [ip.const(a, st) for a in args]
        vs = [(True, int(getattr(re, a[1][3:]))) if a[0] == 'ext' and a[1].startswith('re.') and isinstance(getattr(re, a[1][3:], None), int) else v
              for a, v in zip(args, vs)]
        if name == 'next' and args and node.args and isinstance(node.args[0], ast.GeneratorExp):
            xs = ip.concrete_iter(ip.resolve(args[0], st), st)
            if xs is not None and (xs or len(args) > 1):
                return [(xs[0] if xs else args[1], st)]
        if name.startswith('hashlib.') and not kwargs and all(v[0] for v in vs):
            if short == 'new' and args:
                short, vs = vs[0][1], vs[1:]
            data = vs[0][1] if vs else b''
            if isinstance(data, bytes) and hasattr(hashlib, short):
                return [(K(Hash(short, data)), st)]
        if name.startswith('re.') and not kwargs and args and all(v[0] for v in vs) and short in ('compile', 'match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
            return self.py(ip, st, getattr(re, short), [v[1] for v in vs], frame, node)
        if short == 'inet_pton' and len(args) == 2 and vs[1][0]:
            fam = ip.resolve(args[0], st)
            fam = {'socket.AF_INET': socket.AF_INET, 'socket.AF_INET6': socket.AF_INET6}.get(fam[1]) if fam[0] == 'ext' else None
            if fam is not None:
                try:
                    return [(K(socket.inet_pton(fam, vs[1][1])), st)]
                except (OSError, ValueError) as e:
                    frame.raises.append((type(e).__name__, st.fork(), node))
                    return []
        if name == 'zlib.decompress' and len(args) == 1 and vs[0][0]:
            return [(K(b'inflated ' + vs[0][1]), st)]
        if name in ('bytes', 'iter', 'list', 'tuple', 'len', 'bool') and len(args) == 1:
            a = ip.resolve(args[0], st)
            n = self.node(a)
            if a == self.void:
                return {'len': [(K(0), st)], 'bool': [(K(False), st)], 'iter': [(('tup', ()), st)], 'list': [(ip.new_container('list', (), st, node), st)],
                        'tuple': [(('tup', ()), st)]}.get(name)
            if n is not None:
                if name == 'bytes':
                    return [(K(n.octets()), st)]
                if name in ('iter', 'list', 'tuple') and n.items is not None:
                    xs = tuple(self.ref(st, x) for x in n.items)
                    return [(('tup', xs) if name == 'tuple' else ip.new_container('list', xs, st, node), st)]
                if name == 'len':
                    return [(K(len(n.items if n.items is not None else n.comps or ())), st)]
                if name == 'bool':
                    return [(K(ip.truth(a, st)), st)]
        return None

    def py(self, ip, st, f, vs, frame, node):
        try:
            r = f(*vs)
        except Exception as e:
            frame.raises.append((type(e).__name__, st.fork(), node))
            return []
        if isinstance(r, list):
            return [(ip.new_container('list', tuple(K(x) for x in r), st, node), st)]
        return [(K(r), st)]


class Reader(Fold):
    def truth(self, v, st):
        v = self.resolve(v, st)
        if v == self.h.void:
            return False
        n = self.h.node(v)
        if n is not None:
            return bool(n.items) if n.items is not None else bool(n.comps) if n.comps is not None else True
        if v[0] == 'ref' and st.heap.get(v[1], {}).get('__cls__') in ('list', 'set', 'bytearray') and st.heap[v[1]].get('__const__') is not None:
            return bool(st.heap[v[1]]['__const__'])
        return Fold.truth(self, v, st)

    def decide(self, c, st):
        if c[0] == 'op' and c[1] in ('is', 'eq') and len(c) == 4:
            x, y = self.resolve(c[2], st), self.resolve(c[3], st)
            if c[1] == 'is' and ('ext', 'zlib') in (x, y) and NONE in (x, y):
                return False
            n, m = self.h.node(x), self.h.node(y)
            if n is not None or m is not None:
                o = y if n is not None else x
                if c[1] == 'is' and (n is None or m is None or n is m) or is_k(o) or o == self.h.void:
                    return n is m
        return Fold.decide(self, c, st)

    def concrete_iter(self, it, st):
        if it == self.h.void:
            return []
        n = self.h.node(it)
        if n is not None and n.items is not None:
            return [self.h.ref(st, x) for x in n.items]
        return Fold.concrete_iter(self, it, st)

    def builtin_method(self, o, name, args, kwargs, st, node, frame):
        ok, c = self.const(o, st)
        if ok and isinstance(c, Hash) and not kwargs:
            vs = [self.const(a, st) for a in args]
            if name in ('digest', 'hexdigest') and not args:
                return [(K(getattr(hashlib.new(c.name, c.data), name)()), st)]
            if name == 'update' and len(vs) == 1 and vs[0][0]:
                c.data += vs[0][1]
                return [(NONE, st)]
        if ok and isinstance(c, (re.Pattern, re.Match)) and not kwargs:
            vs = [self.const(a, st) for a in args]
            if all(v[0] for v in vs):
                return self.h.py(self, st, getattr(c, name), [v[1] for v in vs], frame, node)
        return Fold.builtin_method(self, o, name, args, kwargs, st, node, frame)


# ---------------------------------------------------------------- structures

def text(s, cls='core.UTF8String'):
    return leaf(cls, s)


def rdn(*tvs):
    return lst('x509.RelativeDistinguishedName', *[rec('x509.NameTypeAndValue', type=leaf('x509.NameType', t),
                                                       value=alt('x509.DirectoryString', 'utf8_string', text(v))) for t, v in tvs])


def name(*rdns, **kw):
    return alt('x509.Name', '', lst('x509.RDNSequence', *[rdn(*r) if isinstance(r, list) else rdn(r) for r in rdns]), **kw)


def general(kind, v):
    if kind == 'directory_name':
        v.tag = 4
        return alt('x509.GeneralName', kind, v)
    cls = {'dns_name': 'x509.DNSName', 'ip_address': 'x509.IPAddress', 'uniform_resource_identifier': 'x509.URI', 'rfc822_name': 'x509.EmailAddress'}[kind]
    return alt('x509.GeneralName', kind, leaf(cls, v))


def generals(*gs):
    return lst('x509.GeneralNames', *[general(k, v) for k, v in gs])


def point(*gs, **kw):
    if not gs:
        return rec('x509.DistributionPoint', distribution_point=VOID, reasons=VOID, crl_issuer=kw.get('issuer', VOID))
    if gs[0] == 'relative':
        d = alt('x509.DistributionPointName', 'name_relative_to_crl_issuer', rdn(('common_name', 'http://relative.example/')))
    else:
        d = alt('x509.DistributionPointName', 'full_name', generals(*gs))
    return rec('x509.DistributionPoint', distribution_point=d, reasons=VOID, crl_issuer=VOID)


def access(*es):
    return lst('x509.AuthorityInfoAccessSyntax', *[rec('x509.AccessDescription', access_method=leaf('x509.AccessMethod', m), access_location=general(k, v))
                                                   for m, k, v in es])


def ext(n, parsed, critical=False, cls='x509.Extension'):
    return rec(cls, extn_id=leaf('x509.ExtensionId', n), critical=leaf('core.Boolean', critical), extn_value=Node('core.ParsableOctetString', parsed=parsed))


def aki(key=None, issuers=VOID, serial=None):
    return rec('x509.AuthorityKeyIdentifier', key_identifier=leaf('core.OctetString', key) if key else VOID, authority_cert_issuer=issuers,
               authority_cert_serial_number=leaf('core.Integer', serial) if serial is not None else VOID)


def algo(n):
    return rec('algos.SignedDigestAlgorithm', algorithm=leaf('algos.SignedDigestAlgorithmId', n), parameters=VOID)


def certificate(subject, issuer, exts=None, serial=77, sig='sha384_rsa', inner='sha1_dsa'):
    spki = rec('keys.PublicKeyInfo', algorithm=rec('keys.PublicKeyAlgorithm', algorithm=leaf('keys.PublicKeyAlgorithmId', 'rsa'), parameters=VOID),
               public_key=leaf('core.ParsableOctetBitString', b'the key'))
    time = lambda s: alt('x509.Time', 'utc_time', leaf('core.UTCTime', s))
    tbs = rec('x509.TbsCertificate', version=leaf('x509.Version', 'v3'), serial_number=leaf('core.Integer', serial), signature=algo(inner), issuer=issuer,
              validity=rec('x509.Validity', not_before=time('first moment'), not_after=time('last moment')), subject=subject,
              subject_public_key_info=spki, issuer_unique_id=VOID, subject_unique_id=VOID,
              extensions=VOID if exts is None else lst('x509.Extensions', *exts))
    return rec('x509.Certificate', tbs_certificate=tbs, signature_algorithm=algo(sig), signature_value=leaf('core.OctetBitString', b'the signature'))


A = lambda: name(('country_name', 'DE'), ('common_name', 'alpha.example.org'))
B = lambda: name(('country_name', 'FR'), [('organization_name', 'b.example.org'), ('common_name', '*.beta.example.org')], ('common_name', 'two words'),
                 ('common_name', 'second.example.net'))
SKI = lambda b=b'\x01\x02': ext('key_identifier', leaf('core.OctetString', b))
AKI = lambda *a, **k: ext('authority_key_identifier', aki(*a, **k))
SAN = lambda *gs: ext('subject_alt_name', generals(*gs))
BC = lambda ca, n=None: ext('basic_constraints', rec('x509.BasicConstraints', ca=leaf('core.Boolean', ca), path_len_constraint=VOID if n is None else leaf('core.Integer', n)),
                            True)
CDP = lambda *ps: ext('crl_distribution_points', lst('x509.CRLDistributionPoints', *ps))
FRESH = lambda *ps: ext('freshest_crl', lst('x509.CRLDistributionPoints', *ps))
AIA = lambda *es: ext('authority_information_access', access(*es))
U = 'uniform_resource_identifier'


def certificates():
    yield 'no extensions', certificate(A(), B())
    yield 'self-issued, no extensions', certificate(A(), A())
    yield 'no alternative names, several common names', certificate(B(), A(), [])
    yield 'self-issued, key identifier only', certificate(A(), A(), [SKI()])
    yield 'self-issued, authority key identifier only', certificate(A(), A(), [AKI(b'\x01\x02')])
    yield 'self-issued, equal key identifiers', certificate(A(), A(), [SKI(), AKI(b'\x01\x02')])
    yield 'self-issued, different key identifiers', certificate(A(), A(), [AKI(b'\x01\x03'), SKI()])
    yield 'self-issued, authority identified by name only', certificate(A(), A(), [AKI(None, lst('x509.GeneralNames', general('directory_name', A())), 5), SKI()])
    yield 'issued by another, equal key identifiers', certificate(A(), B(), [SKI(), AKI(b'\x01\x02')])
    yield 'authority names of several kinds', certificate(A(), B(), [AKI(b'\x09', lst(
        'x509.GeneralNames', general('dns_name', 'ca.example'), general('directory_name', B()), general('directory_name', A())), 1234567890123)], serial=-3)
    yield 'authority names without a directory name', certificate(A(), B(), [AKI(b'\x09', lst('x509.GeneralNames', general('dns_name', 'ca.example')), 9)])
    yield 'authority with serial number 0', certificate(A(), B(), [AKI(None, lst('x509.GeneralNames', general('directory_name', B())), 0)], serial=0)
    yield 'a certification authority', certificate(B(), A(), [BC(True, 3)])
    yield 'a certification authority without path length', certificate(B(), A(), [BC(True)])
    yield 'a certification authority with path length 0', certificate(B(), A(), [BC(True, 0)])
    yield 'not a certification authority', certificate(B(), A(), [BC(False)])
    yield 'not a certification authority, with a path length', certificate(B(), A(), [BC(False, 2)])
    yield 'alternative names of all kinds', certificate(B(), A(), [SAN(
        ('dns_name', 'www.example.org'), ('rfc822_name', 'mail@example.org'), ('ip_address', '10.0.0.1'), ('dns_name', '*.wild.example.org'),
        ('dns_name', 'www.example.org'), (U, 'http://uri.example.org/'), ('directory_name', A()), ('ip_address', '2001:db8::1'),
        ('dns_name', 'ba*.part.example.org'), ('dns_name', '*.*.twice.example.org'), ('dns_name', 'x.*.inner.example.org'), ('dns_name', 'UPPER.Example.org'))])
    yield 'international names', certificate(B(), A(), [SAN(
        ('dns_name', 'b\u00fccher.example.org'), ('dns_name', 'b\u00fc*.part.example.org'), ('dns_name', '*.m\u00fcnchen.example.org'), ('dns_name', 'pre*post.part.example.org'))])
    yield 'alternative names without a domain', certificate(B(), A(), [SAN(('rfc822_name', 'mail@example.org'))])
    yield 'alternative names, addresses only', certificate(A(), B(), [SAN(('ip_address', '192.0.2.7'))])
    yield 'distribution points of all kinds', certificate(A(), B(), [
        CDP(point((U, 'http://crl.example/1')), point(), point('relative'), point(('directory_name', A())), point(('dns_name', 'x.example'), (U, 'http://crl.example/2'))),
        FRESH(point('relative'), point((U, 'http://delta.example/1')), point())])
    yield 'distribution points for complete lists only', certificate(A(), B(), [CDP(point((U, 'http://crl.example/1')))])
    yield 'distribution points for delta lists only', certificate(A(), B(), [FRESH(point((U, 'http://delta.example/1')))])
    yield 'access descriptions of all kinds', certificate(A(), B(), [AIA(
        ('ca_issuers', U, 'http://issuer.example/'), ('ocsp', U, 'http://ocsp.example/'), ('ocsp', 'dns_name', 'ocsp.example'), ('ocsp', U, 'HTTPS://ocsp.example/2'),
        ('ocsp', U, 'ftp://ocsp.example/'), ('time_stamping', U, 'http://tsa.example/'), ('ocsp', U, 'ldap://ocsp.example/'), ('ocsp', U, 'ldaps://ocsp.example/'))])
    yield 'everything', certificate(A(), A(), [
        SKI(b'\x07'), AKI(b'\x07', lst('x509.GeneralNames', general('directory_name', B())), 31), BC(True, 2), SAN(('ip_address', '10.1.1.1'), ('dns_name', 'd.example')),
        CDP(point((U, 'http://crl.example/1'))), FRESH(point((U, 'http://delta.example/1'))), AIA(('ocsp', U, 'http://ocsp.example/'))])


def revocation_list(exts=None):
    time = lambda s: alt('x509.Time', 'utc_time', leaf('core.UTCTime', s))
    tbs = rec('crl.TbsCertList', version=leaf('crl.Version', 'v2'), signature=algo('sha1_dsa'), issuer=A(), this_update=time('now'), next_update=time('then'),
              revoked_certificates=VOID, crl_extensions=VOID if exts is None else lst('crl.TBSCertListExtensions', *exts))
    return rec('crl.CertificateList', tbs_cert_list=tbs, signature_algorithm=algo('sha384_rsa'), signature=leaf('core.OctetBitString', b'the signature'))


def revocation_lists():
    cx = lambda e: (setattr(e, 'cls', 'crl.TBSCertListExtension'), setattr(e.comps['extn_id'], 'cls', 'crl.TBSCertListExtensionId'), e)[2]
    yield 'no extensions', revocation_list()
    yield 'authority key identifier', revocation_list([cx(AKI(b'\x05'))])
    yield 'authority identified by name', revocation_list([cx(AKI(None, generals(('dns_name', 'x.example')), 5))])
    yield 'access descriptions of all kinds', revocation_list([cx(AIA(
        ('ocsp', U, 'http://ocsp.example/'), ('ca_issuers', U, 'http://issuer.example/'), ('ca_issuers', 'dns_name', 'issuer.example'),
        ('ca_issuers', U, 'HTTP://issuer.example/2'), ('ca_issuers', U, 'ftp://issuer.example/')))])
    yield 'distribution points of all kinds', revocation_list([cx(FRESH(
        point('relative'), point((U, 'http://delta.example/1')), point(), point(('directory_name', A())), point(('dns_name', 'x.example'), (U, 'http://crl.example/2'))))])


def revoked(*issuers):
    es = [] if not issuers else [rec('crl.CRLEntryExtension', extn_id=leaf('crl.CRLEntryExtensionId', 'certificate_issuer'), critical=leaf('core.Boolean', True),
                                     extn_value=Node('core.ParsableOctetString', parsed=lst('x509.GeneralNames', *issuers)))]
    return rec('crl.RevokedCertificate', user_certificate=leaf('core.Integer', 5), revocation_date=leaf('core.UTCTime', 'then'),
               crl_entry_extensions=lst('crl.CRLEntryExtensions', *es) if es else VOID)


def revokeds():
    yield 'no extensions', revoked()
    yield 'a directory name', revoked(general('directory_name', A()))
    yield 'names of several kinds', revoked(general('dns_name', 'x.example'), general('directory_name', B()), general('directory_name', A()))
    yield 'no directory name', revoked(general('dns_name', 'x.example'))


def responses():
    yield 'unsuccessful', rec('ocsp.OCSPResponse', response_status=leaf('ocsp.OCSPResponseStatus', 'try_later'), response_bytes=VOID)
    basic = rec('ocsp.BasicOCSPResponse', tbs_response_data=rec('ocsp.ResponseData', version=leaf('ocsp.Version', 'v1'), response_extensions=VOID),
                signature_algorithm=algo('sha384_rsa'), signature=leaf('core.OctetBitString', b's'), certs=VOID)
    yield 'successful', rec('ocsp.OCSPResponse', response_status=leaf('ocsp.OCSPResponseStatus', 'successful'), response_bytes=rec(
        'ocsp.ResponseBytes', response_type=leaf('ocsp.ResponseType', 'basic_ocsp_response'), response=Node('core.ParsableOctetString', parsed=basic)))


def points():
    yield 'no name', point()
    yield 'relative name', point('relative')
    yield 'no address', point(('dns_name', 'x.example'), ('directory_name', A()))
    yield 'an address', point(('dns_name', 'x.example'), (U, 'http://a.example/'), (U, 'http://b.example/'))
    yield 'addresses of other schemes', point((U, 'ftp://a.example/'), (U, 'LDAP://b.example/'))
    yield 'addresses of other schemes only', point((U, 'ftp://a.example/'))


# ---------------------------------------------------------------- what the accessors are documented to be

ERR = 'ValueError'


def extension(where):
    def find(d, n):
        l = d.get(where)
        for e in (l.items if l is not VOID else ()):
            if e.comps['extn_id'].native == n:
                return e.comps['extn_value'].parsed
        return None
    return find


def nat(v):
    return None if v is VOID or v is None else v.value()


cert_ext, crl_ext, entry_ext = extension('tbs_certificate/extensions'), extension('tbs_cert_list/crl_extensions'), extension('crl_entry_extensions')
H = lambda alg, data: hashlib.new(alg, data).digest()


def directory(l):
    for g in (l.items if l is not None and l is not VOID else ()):
        if g.alt[0] == 'directory_name':
            return g.alt[1]
    return None


def authority(d):
    a = cert_ext(d, 'authority_key_identifier')
    n = directory(a.comps['authority_cert_issuer']) if a is not None else None
    return H('sha256', n.encoding(True)) + b':' + str(nat(a.comps['authority_cert_serial_number'])).encode() if n is not None else None


def web_points(v):
    return [p for p in (v.items if v is not None else ()) if p.comps['distribution_point'] is not VOID and p.comps['distribution_point'].alt[0] == 'full_name' and
            any(g.alt[0] == U for g in p.comps['distribution_point'].alt[1].items)]


def urls(v, method, schemes):
    return [e.comps['access_location'].value() for e in (v.items if v is not None else ()) if e.comps['access_method'].native == method and
            e.comps['access_location'].alt[0] == U and e.comps['access_location'].value().lower().startswith(schemes)]


def names_of(d, kind):
    v = cert_ext(d, 'subject_alt_name')
    return None if v is None else [g.value() for g in v.items if g.alt[0] == kind]


def domains(d):
    ns = names_of(d, 'dns_name')
    if ns is None:
        ns = []
        for r in d.get('tbs_certificate/subject').alt[1].items:
            for tv in r.items:
                v = tv.comps['value'].value()
                if tv.comps['type'].native == 'common_name' and re.match(r'^(\*\.)?([A-Za-z0-9]([A-Za-z0-9-]*[A-Za-z0-9])?\.)+[A-Za-z]{2,}\Z', v):
                    ns.append(v)
    return ns


def self_issued(d):
    return d.get('tbs_certificate/subject').encoding(True) == d.get('tbs_certificate/issuer').encoding(True)


def self_signed(d):
    if not self_issued(d):
        return 'no'
    a, k = cert_key(d, 'authority_key_identifier'), cert_key(d, 'key_identifier')
    return 'no' if a is not None and k is not None and a != k else 'maybe'


def cert_key(d, n):
    v = cert_ext(d, n)
    return None if v is None else v.native if n == 'key_identifier' else nat(v.comps['key_identifier'])


def is_ca(d):
    v = cert_ext(d, 'basic_constraints')
    return v is not None and v.comps['ca'].native


def valid(d, who):
    """RFC 6125: labels match without regard to case; a wildcard stands for (part of) the first label"""
    try:
        ip = ipaddress.ip_address(who)
    except ValueError:
        ip = None
    if ip is not None:
        return any(ipaddress.ip_address(x) == ip for x in names_of(d, 'ip_address') or [])
    want = who.encode('idna').decode().lower().split('.')
    for p in domains(d):
        have = p.encode('idna').decode().lower().split('.')
        if len(have) != len(want):
            continue
        if have == want:
            return True
        if p.count('*') == 1 and '*' in have[0] and not have[0].startswith('xn--') and have[1:] == want[1:]:
            before, after = have[0].split('*')
            if want[0].startswith(before) and want[0].endswith(after) and len(want[0]) >= len(before) + len(after):
                return True
    return False


WHO = ['www.example.org', 'WWW.example.ORG', 'www2.example.org', 'a.www.example.org', 'a.wild.example.org', 'a.b.wild.example.org', 'wild.example.org', 'bar.part.example.org',
       'foo.part.example.org', 'a.b.twice.example.org', 'x.y.inner.example.org', 'upper.example.org', 'alpha.example.org', 'a.beta.example.org', 'beta.example.org',
       'second.example.net', '10.0.0.1', '10.0.0.2', '192.0.2.7', '2001:db8::1', '2001:DB8:0:0:0:0:0:1', '2001:db8::2', 'mail@example.org', 'uri.example.org', 'd.example',
       '10.1.1.1', 'example.org', 'b\u00fccher.example.org', 'xn--bcher-kva.example.org', 'XN--BCHER-KVA.example.org', 'bucher.example.org', 'b\u00fcrste.part.example.org', 'xn--bx-xka.part.example.org',
       'www.m\u00fcnchen.example.org', 'xn--mnchen-3ya.example.org', 'prexpost.part.example.org', 'prepost.part.example.org', 'prepo.part.example.org', 'prexpost.example.org']


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


CERT = {
    'signature': lambda d: d.comps['signature_value'].native,
    'signature_algo': lambda d: 'rsassa_pkcs1v15',
    'hash_algo': lambda d: 'sha384',
    'public_key': lambda d: d.get('tbs_certificate/subject_public_key_info'),
    'subject': lambda d: d.get('tbs_certificate/subject'),
    'issuer': lambda d: d.get('tbs_certificate/issuer'),
    'serial_number': lambda d: d.get('tbs_certificate/serial_number').native,
    'key_identifier': lambda d: cert_key(d, 'key_identifier'),
    'issuer_serial': lambda d: H('sha256', d.get('tbs_certificate/issuer').encoding()) + b':' + str(d.get('tbs_certificate/serial_number').native).encode(),
    'not_valid_after': lambda d: d.get('tbs_certificate/validity/not_after').value(),
    'not_valid_before': lambda d: d.get('tbs_certificate/validity/not_before').value(),
    'authority_key_identifier': lambda d: cert_key(d, 'authority_key_identifier'),
    'authority_issuer_serial': authority,
    'crl_distribution_points': lambda d: web_points(cert_ext(d, 'crl_distribution_points')),
    'delta_crl_distribution_points': lambda d: web_points(cert_ext(d, 'freshest_crl')),
    'ocsp_urls': lambda d: urls(cert_ext(d, 'authority_information_access'), 'ocsp', ('http://', 'https://', 'ldap://', 'ldaps://')),
    'valid_domains': domains,
    'valid_ips': lambda d: names_of(d, 'ip_address') or [],
    'ca': is_ca,
    'max_path_length': lambda d: nat(cert_ext(d, 'basic_constraints').comps['path_len_constraint']) if is_ca(d) else None,
    'self_issued': self_issued,
    'self_signed': self_signed,
    'sha1': lambda d: H('sha1', d.encoding()),
    'sha1_fingerprint': lambda d: ' '.join('%02X' % c for c in H('sha1', d.encoding())),
    'sha256': lambda d: H('sha256', d.encoding()),
    'sha256_fingerprint': lambda d: ' '.join('%02X' % c for c in H('sha256', d.encoding())),
}
for w in WHO:
    CERT['is_valid_domain_ip(%r)' % w] = lambda d, w=w: valid(d, w)
CRL = {
    'issuer': lambda d: d.get('tbs_cert_list/issuer'),
    'authority_key_identifier': lambda d: (lambda a: None if a is None else nat(a.comps['key_identifier']))(crl_ext(d, 'authority_key_identifier')),
    'issuer_cert_urls': lambda d: urls(crl_ext(d, 'authority_information_access'), 'ca_issuers', ('http://',)),
    'delta_crl_distribution_points': lambda d: web_points(crl_ext(d, 'freshest_crl')),
    'signature': lambda d: d.comps['signature'].native,
    'sha1': lambda d: H('sha1', d.encoding()),
    'sha256': lambda d: H('sha256', d.encoding()),
}


def pairs_of(d):
    return [(tv.comps['type'].native, tv.comps['value'].value()) for r in d.alt[1].items for tv in r.items]


def grouped(d):
    out = {}
    for t, v in pairs_of(d):
        out[t] = v if t not in out else out[t] + [v] if isinstance(out[t], list) else [out[t], v]
    return list(out.items())


class All(object):
    """a text made of these parts, each as often as it occurs"""
    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, s):
        return isinstance(s, str) and all(s.count(p) == sum(p in q for q in self.parts) for p in self.parts)

    def __repr__(self):
        return 'a text with %s' % ', '.join(map(repr, self.parts))


NAME = {'sha1': lambda d: H('sha1', d.encoding()), 'sha256': lambda d: H('sha256', d.encoding()), 'native': grouped,
        'human_friendly': lambda d: All([v for t, v in pairs_of(d)])}
KEY = {'sha1': lambda d: H('sha1', d.comps['public_key'].octets()), 'sha256': lambda d: H('sha256', d.comps['public_key'].octets())}


def url(d):
    p = d.comps['distribution_point']
    if p is VOID:
        return None
    if p.alt[0] != 'full_name':
        return ERR
    for g in p.alt[1].items:
        if g.alt[0] == U and g.value().lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
            return g.value()
    return None


RESPONSE = {
    'basic_ocsp_response': lambda d: d.get('response_bytes/response').parsed if d.comps['response_bytes'] is not VOID else None,
    'response_data': lambda d: d.get('response_bytes/response').parsed.comps['tbs_response_data'] if d.comps['response_bytes'] is not VOID else None,
}


def keys():
    yield 'a key', certificate(A(), B()).get('tbs_certificate/subject_public_key_info')


def names():
    yield 'untagged', A()
    n = B()
    n.tag = 4
    yield 'tagged', n
    for x in names_more():
        yield x


def names_more():
    yield 'one part', name(('common_name', 'one'))
    yield 'no parts', name()
    yield 'the country last', name(('common_name', 'x, y'), ('organizational_unit_name', 'unit 1'), ('organizational_unit_name', 'unit 2'), ('organizational_unit_name', 'unit 3'),
                                   ('country_name', 'DE'))
    yield 'repeated in one part', name([('common_name', 'first'), ('common_name', 'second')], ('common_name', 'third'))


def content(v, tag=0):
    return VOID if v is None else leaf('core.OctetString', v, tag)


def safes():
    data = lambda v: rec('cms.ContentInfo', content_type=leaf('cms.ContentType', 'data'), content=content(v))
    pfx = lambda c: rec('pkcs12.Pfx', version=leaf('pkcs12.Version', 'v3'), auth_safe=c, mac_data=VOID)
    signed = lambda v: rec('cms.ContentInfo', content_type=leaf('cms.ContentType', 'signed_data'), content=rec(
        'cms.SignedData', tag=0, version=leaf('cms.CMSVersion', 'v1'), digest_algorithms=lst('cms.DigestAlgorithms'), encap_content_info=rec(
            'cms.ContentInfo', content_type=leaf('cms.ContentType', 'data'), content=content(v)), certificates=VOID, crls=VOID, signer_infos=lst('cms.SignerInfos')))
    yield 'plain', pfx(data(b'the safe'))
    yield 'signed', pfx(signed(b'the safe'))
    yield 'absent', pfx(data(None))
    yield 'signed and absent', pfx(signed(None))


def safe(d):
    c = d.get('auth_safe/content')
    if c is not VOID and c.cls == 'cms.SignedData':
        c = c.get('encap_content_info/content')
    return ERR if c is VOID else Node('pkcs12.AuthenticatedSafe', native=c.native)


def compressed():
    for label, v in (('content', b'deflated'), ('no content', None)):
        yield label, rec('cms.CompressedData', version=leaf('cms.CMSVersion', 'v0'), compression_algorithm=VOID, encap_content_info=rec(
            'cms.EncapsulatedContentInfo', content_type=leaf('cms.ContentType', 'data'), content=content(v)))


def inflated(d):
    v = nat(d.get('encap_content_info/content'))
    return None if v is None else b'inflated ' + v


FAMILIES = [('x509.Certificate', certificates, CERT), ('crl.CertificateList', revocation_lists, CRL),
            ('crl.RevokedCertificate', revokeds, {'issuer_name': lambda d: directory(entry_ext(d, 'certificate_issuer'))}),
            ('ocsp.OCSPResponse', responses, RESPONSE), ('x509.DistributionPoint', points, {'url': url}), ('keys.PublicKeyInfo', keys, KEY),
            ('x509.Name', names, NAME), ('pkcs12.Pfx', safes, {'authenticated_safe': safe}), ('cms.CompressedData', compressed, {'decompressed': inflated})]


class Judge(object):
    def __init__(self, ctx, qual, accs):
        self.ctx, self.p, self.cls, self.accs = ctx, ctx.prog, ctx.prog.cls(qual), accs
        self.dead = set()

    def func(self, acc):
        n, _, arg = acc.partition('(')
        v, _ = self.cls.lookup(n)
        f = v.fget if isinstance(v, PropertyInfo) else v if isinstance(v, FuncInfo) else None
        return f, [K(arg[1:-2])] if arg else []

    def start(self, doc):
        h = Hooks(self.p)
        st = State()
        return h, Reader(self.p, h, budget=60000), st, h.ref(st, doc)

    def read(self, h, ip, st, me, acc, doc, label, before):
        ctx = self.ctx
        f, args = self.func(acc)
        if f is None:
            ctx.undec('%s.%s is not defined' % (self.cls.qual, acc))
            return None
        st.env = {}
        ctx.count('accessor evaluations')
        how = ' (%s%s)' % (label, ', after %s was read' % before if before else '')
        title = '%s.%s' % (self.cls.qual, acc)
        where = '%s:%s' % (f.module.relpath, f.node.lineno)
        try:
            outs = [o for o in ip.run(f, [me] + args, st) if o.kind in ('raise', 'return', 'fall')]
        except TooComplex:
            outs = []
        if len(outs) != 1:
            self.dead.add(acc)
            ctx.undec('%s does not fold to one path%s' % (title, how))
            return None
        o = outs[0]
        want = self.accs[acc](doc)
        if o.kind == 'raise':
            if want is not ERR or o.val != ERR:
                ctx.report('%s fails' % title, '%s:%s' % (where.split(':')[0], getattr(o.node, 'lineno', '?')), '%s fails with %s%s' % (title, o.val, how))
            return o.st if want is ERR and o.val == ERR else None
        got = self.value(h, ip, ip.resolve(o.val, o.st) if o.val is not None else NONE, o.st)
        if got is h:
            self.dead.add(acc)
            ctx.undec('%s is not recognised%s' % (title, how))
            return None
        if want is ERR:
            ctx.report('%s accepted' % title, where, '%s does not fail with ValueError%s' % (title, how))
            return None
        if isinstance(want, list) and isinstance(got, (list, tuple)):
            got, want = uniq(got), uniq(want)
        if isinstance(want, bool):
            if got is not None and not isinstance(got, (bool, Node)):
                pass
            got = bool(got)
        if isinstance(want, Node) or isinstance(got, Node):
            same = got is want or isinstance(got, Node) and isinstance(want, Node) and got.cls == want.cls and got.encoding() == want.encoding()
        else:
            same = want == got and (isinstance(got, type(want)) or isinstance(want, All))
        if not same:
            ctx.report('%s wrong' % title, where, '%s is %s instead of %s%s' % (title, self.show(doc, got), self.show(doc, want), how))
            return None
        return o.st

    def value(self, h, ip, v, st):
        if v == h.void:
            return VOID
        n = h.node(v)
        if n is not None:
            return n
        xs = ip.items(v, st)
        if xs is not None:
            out = [self.value(h, ip, ip.resolve(x, st), st) for x in xs[1]]
            return h if any(x is h for x in out) else out
        if v[0] == 'ref' and st.heap.get(v[1], {}).get('__cls__') == 'dict':
            ps = ip.pairs(v, st)
            return h if ps is None else [(self.value(h, ip, ip.resolve(k, st), st), self.value(h, ip, ip.resolve(x, st), st)) for k, x in ps]
        ok, c = ip.const(v, st)
        return c if ok else h

    def show(self, doc, v):
        if isinstance(v, list):
            return '[%s]' % ', '.join(self.show(doc, x) for x in v)
        if isinstance(v, Node):
            return self.path(doc, v) or 'a %s' % v.cls
        return repr(v)[:80]

    def path(self, n, v, at='the value itself'):
        if n is v:
            return at
        subs = list((n.comps or {}).items()) + [(str(i), x) for i, x in enumerate(n.items or ())]
        if n.parsed is not None:
            subs.append(('its decoded value', n.parsed))
        if n.alt is not None:
            subs.append(n.alt)
        for k, x in subs:
            if x is not VOID:
                r = self.path(x, v, k if at == 'the value itself' else '%s/%s' % (at, k))
                if r:
                    return r
        return None

    def sequence(self, label, doc, order):
        h, ip, st, me = self.start(doc)
        before = None
        for a in order:
            if a in self.dead or len(self.ctx.undecided) > 12:
                continue
            s = self.read(h, ip, st, me, a, doc, label, before)
            if s is None:       # reported; what it left behind is not judged further
                h, ip, st, me = self.start(doc)
                before = None
                continue
            st, before = s, a


def work(ctx, item):
    fam, k = item
    qual, docs, accs = FAMILIES[fam]
    label, doc = list(docs())[k]
    j = Judge(ctx, qual, accs)
    names = [a for a in accs if '(' not in a]
    ctx.count('structures')
    for a in accs:
        if a not in j.dead:
            j.sequence(label, doc, [a])
    j.sequence(label, doc, list(accs) + names)
    j.sequence(label, doc, list(reversed(list(accs))))
    if k % 4 == 0 or label == 'everything' or ctx.thorough or len(names) < 10:
        for a in names:
            for b in names:
                if not set([a, b]) & j.dead:
                    j.sequence(label, doc, [a, b])
                    ctx.count('pairs of accessors')


def check(ctx):
    items = [(i, k) for i, (q, docs, accs) in enumerate(FAMILIES) for k in range(len(list(docs())))]
    ctx.spread(items, work)
    ctx.count('accessors', sum(len([a for a in accs if '(' not in a]) for _, _, accs in FAMILIES))
    ctx.need('structures', 30)
    ctx.need('accessor evaluations', 1000)
