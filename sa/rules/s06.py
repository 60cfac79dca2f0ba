"""S06: algorithm accessors report what each algorithm is defined to be."""
import re
from ..accessors import FAIL, owner
from ..flow import State, TooComplex, NONE, K, is_k, wrap
from ..model import FuncInfo, PropertyInfo
from ..typed import Typed, TypedHooks, initial

RULE = ('for every name in the registry of an algorithm (crossed with the nested algorithm and the parameter values that matter), the derived property is '
        'the constant, or is read from the component, that the definition of the algorithm requires; ValueError where it has none; no other exception')
EXPLANATION = ('Each accessor of the signature, encryption and key structures and of the curve registry is evaluated from its source once per algorithm '
               'name with the identifier fixed to that name: table lookups, comparisons, prefixes and string dissection fold to constants, and a result '
               'that is not a constant is described by the components it is computed from. The outcome is compared with a table of definitions '
               '(PKCS#1, PKCS#5, PKCS#12, RFC 3279, 4055, 5084, 5480, 5639, 5758, 7914, 8018, 8410, 8419, SEC 2, X9.62) kept with this rule.')
ASSUMPTIONS = ['parameters are present unless a case says otherwise (absence is the subject of A01)']

ERR = 'ValueError'
GONE = object()
OTHER = '1.2.840.999999.1'


def src(*paths):
    return ('from',) + tuple(sorted(paths))


# ---------------------------------------------------------------------------------------------------- definitions
HASHES = ('md2', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha3_224', 'sha3_256', 'sha3_384', 'sha3_512')


def signature(name):
    """name -> (scheme, hash, hash in CMS)"""
    m = re.match('^(%s)_(rsa|dsa|ecdsa|ecdsa_plain)$' % '|'.join(HASHES), name)
    if m:
        return {'rsa': 'rsassa_pkcs1v15', 'dsa': 'dsa'}.get(m.group(2), 'ecdsa'), m.group(1), m.group(1)
    if name == 'rsassa_pss':
        h = src('self/parameters/hash_algorithm/algorithm')
        return 'rsassa_pss', h, h
    if name in ('rsassa_pkcs1v15', 'dsa', 'ecdsa'):
        return name, ERR, ERR
    if name == 'ed25519':
        return name, ERR, 'sha512'
    if name == 'ed448':
        return name, ERR, 'shake256'
    return None


PARAM, IV = 'self/parameters', 'self/parameters/iv'
PBE = {  # (cipher, key length, block size, mode)
    'des': ('des', 8, 8, 'cbc'), 'rc2': ('rc2', 8, 8, 'cbc'), 'rc4_128': ('rc4', 16, 0, ERR), 'rc4_40': ('rc4', 5, 0, ERR),
    'tripledes_3key': ('tripledes', 24, 8, 'cbc'), 'tripledes_2key': ('tripledes', 16, 8, 'cbc'), 'rc2_128': ('rc2', 16, 8, 'cbc'),
    'rc2_40': ('rc2', 5, 8, 'cbc')}


def encryption(name):
    """name -> {accessor: outcome} for everything but pbes2"""
    d = dict(kdf=ERR, kdf_hmac=ERR, kdf_salt=ERR, kdf_iterations=ERR)
    m = re.match(r'^aes(128|192|256)_(ecb|cbc|ofb|cfb|wrap|gcm|ccm|wrap_pad)$', name)
    if m:
        d.update(key_length=int(m.group(1)) // 8, encryption_mode=m.group(2), encryption_cipher='aes', encryption_block_size=16,
                 encryption_iv=src(PARAM) if m.group(2) in ('cbc', 'ofb') else None)
        return d
    m = re.match(r'^(pbes1|pkcs12)_(md2|md5|sha1)_(.+)$', name)
    if m and m.group(3) in PBE:
        c, n, b, mode = PBE[m.group(3)]
        return dict(kdf='pbkdf1' if m.group(1) == 'pbes1' else 'pkcs12_kdf', kdf_hmac=m.group(2), kdf_salt=src('self/parameters/salt'),
                    kdf_iterations=src('self/parameters/iterations'), key_length=n, encryption_mode=mode, encryption_cipher=c,
                    encryption_block_size=b, encryption_iv=None)
    one = {
        'des': dict(key_length=8, encryption_mode='cbc', encryption_cipher='des', encryption_block_size=8, encryption_iv=src(PARAM)),
        'tripledes_3key': dict(key_length=24, encryption_mode='cbc', encryption_cipher='tripledes', encryption_block_size=8, encryption_iv=src(PARAM)),
        'rc2': dict(encryption_mode='cbc', encryption_cipher='rc2', encryption_block_size=8, encryption_iv=src(IV)),
        'rc4': dict(key_length=ERR, encryption_mode=ERR, encryption_cipher='rc4', encryption_block_size=0, encryption_iv=None),
        'rc5': dict(key_length=ERR, encryption_mode='cbc', encryption_cipher='rc5', encryption_iv=src(IV)),
        'rsaes_pkcs1v15': dict(key_length=ERR, encryption_mode=ERR, encryption_cipher=ERR, encryption_block_size=ERR, encryption_iv=None),
        'rsaes_oaep': dict(key_length=ERR, encryption_mode=ERR, encryption_cipher=ERR, encryption_block_size=ERR, encryption_iv=None),
    }.get(name)
    if one is None:
        return None
    d.update(one)
    return d


SCHEME = 'self/parameters/encryption_scheme'
KDF = 'self/parameters/key_derivation_func'
ALG = 'self/algorithm'
RC2 = (('160', 160, 5), ('120', 120, 8), ('58', 58, 16), ('absent', GONE, 4), ('256', 256, 32), ('1024', 1024, 128), ('unknown', 1, ERR))


def encryption_cases(names):
    """(label, fixed components, {accessor: outcome})"""
    for n in names:
        if n == 'pbes2':
            continue
        d = encryption(n)
        if d is None:
            yield n, {ALG: n}, None
            continue
        yield n, {ALG: n}, d
        if n == 'rc2':
            for lab, v, want in RC2:
                yield 'rc2 version %s' % lab, {ALG: n, 'self/parameters/rc2_parameter_version': v}, {'key_length': want}
        if n == 'rc5':
            for b in (64, 128):
                yield 'rc5 with %d-bit blocks' % b, {ALG: n, 'self/parameters/block_size_in_bits': b}, {'encryption_block_size': b // 8}
    if 'pbes2' not in names:
        return
    p = KDF + '/parameters/'
    for k in ('pbkdf2', 'scrypt'):
        base = {ALG: 'pbes2', KDF + '/algorithm': k, SCHEME + '/algorithm': 'aes128_cbc'}
        yield 'pbes2 with %s' % k, base, dict(
            kdf=k, kdf_hmac=src(p + 'prf/algorithm') if k == 'pbkdf2' else None, kdf_iterations=src(p + 'iteration_count') if k == 'pbkdf2' else None)
        if k == 'pbkdf2':
            yield 'pbes2 with pbkdf2 and a specified salt', dict(base, **{p + 'salt.name': 'specified'}), {'kdf_salt': src(p + 'salt')}
            yield 'pbes2 with pbkdf2 and another salt source', dict(base, **{p + 'salt.name': 'other_source'}), {'kdf_salt': ERR}
        else:
            yield 'pbes2 with scrypt and a salt', base, {'kdf_salt': src(p + 'salt')}
        yield 'pbes2 with %s and a key length' % k, dict(base, **{p + 'key_length': 7}), {'key_length': 7}
        for n in names:
            d = encryption(n)
            if n == 'rc2' or d is None or n[:5] in ('pbes1', 'pbes2', 'pkcs1'):
                continue
            d = dict((a, v if not isinstance(v, tuple) else ('from',) + tuple(x.replace('self/', SCHEME + '/', 1) for x in v[1:]))
                     for a, v in d.items() if a in ('key_length', 'encryption_mode', 'encryption_cipher', 'encryption_block_size', 'encryption_iv'))
            yield 'pbes2 with %s and %s' % (k, n), dict(base, **{p + 'key_length': GONE, SCHEME + '/algorithm': n}), d
    yield 'pbes2 with an unknown key derivation function', {ALG: 'pbes2', KDF + '/algorithm': OTHER, SCHEME + '/algorithm': 'aes128_cbc'}, dict(
        kdf_hmac=ERR, kdf_salt=ERR, kdf_iterations=ERR, encryption_cipher='aes', encryption_mode='cbc')


def unknown_cases(accessors):
    yield 'unknown algorithm', {ALG: OTHER}, dict((a, ERR) for a in accessors)


# bits of the order of each curve (SEC 2, X9.62, RFC 5639)
def curve_bits(name):
    m = re.match(r'^(secp|sect|brainpoolp|prime|c2[pto]nb)(\d+)([a-z]\d)$', name)
    if not m:
        return None
    bits = int(m.group(2))
    return {'secp160k1': 161, 'secp160r1': 161, 'secp160r2': 161, 'secp224k1': 225, 'sect163k1': 163, 'sect163r1': 162, 'sect233k1': 232,
            'sect239k1': 238, 'sect283k1': 281, 'sect283r1': 282, 'sect409k1': 407, 'sect571k1': 570, 'sect571r1': 570, 'c2pnb176w1': 161,
            'c2pnb208w1': 193, 'c2pnb272w1': 257, 'c2pnb304w1': 289, 'c2tnb359v1': 353, 'c2pnb368w1': 353, 'c2tnb431r1': 418}.get(name, bits)


# ---------------------------------------------------------------------------------------------------- evaluation
class Fixed(TypedHooks):
    """Components have the given values; every other component is present."""
    def __init__(self, prog, fixed):
        TypedHooks.__init__(self, prog)
        self.fixed = fixed

    def native(self, ip, st, n):
        if n[1] in self.fixed:
            return K(self.fixed[n[1]])
        return TypedHooks.native(self, ip, st, n)

    def core_property(self, ip, st, n, attr, node, frame):
        v = self.fixed.get('%s.%s' % (n[1], attr))
        if v is not None:
            return [(K(v), st)]
        if self.kind(n[0]) == 'Choice' and attr in ('name', 'chosen') and n[1] + '.name' in self.fixed:
            st.facts[('val', ('sym', n[1] + '.name', frozenset(['str'])))] = K(self.fixed[n[1] + '.name'])
        return TypedHooks.core_property(self, ip, st, n, attr, node, frame)

    def child(self, ip, st, n, name, node, frame):
        fs = self.fields(n[0])
        f = [x for i, x in enumerate(fs) if x[0] == name or i == name]
        if f:
            gone = self.fixed.get('%s/%s' % (n[1], f[0][0])) is GONE
            key = ('val', ('sym', '%s/%s' % (n[1], f[0][0]), None))
            if gone:
                st.facts[key] = self.void
            else:
                return [(v, s) for v, s in TypedHooks.child(self, ip, st, n, name, node, frame) if v != self.void]
        return TypedHooks.child(self, ip, st, n, name, node, frame)


def sources(v, out):
    if isinstance(v, frozenset):
        for x in v:
            sources(x, out)
        return
    if not isinstance(v, tuple):
        return
    if len(v) == 3 and v[0] == 'sym' and isinstance(v[1], str):
        if '/' in v[1]:
            out.add(re.sub(r'\.(native|contents|dump\(\))$', '', v[1]))
        return
    for x in v:
        sources(x, out)


def outcome(o):
    if o.kind == 'raise':
        return 'raise', o.val
    if is_k(o.val):
        return 'value', o.val[2]
    if o.val[0] == 'tup' and all(is_k(x) for x in o.val[1]):
        return 'value', tuple(x[2] for x in o.val[1])
    out = set()
    sources(o.val, out)
    return ('from',) + tuple(sorted(out))


def show(x):
    if x == ('raise', 'ValueError'):
        return 'ValueError'
    return 'computed from %s' % ', '.join(x[1:]) if x[0] == 'from' else '%s' % (x[1],) if x[0] == 'raise' else repr(x[1])


def wanted(w):
    if isinstance(w, tuple) and w and w[0] == 'from':
        return w
    return ('raise', 'ValueError') if w == ERR else ('value', w)


def getter(cls, name):
    v = cls.lookup(name)[0]
    return v.fget if isinstance(v, PropertyInfo) else v if isinstance(v, FuncInfo) else None


def registry(h, cls, path):
    """The registry behind a component given by its path."""
    for x in path.split('/')[1:]:
        d = dict((f[0], f[1]) for f in h.fields(cls))
        cls = d.get(x)
        if cls is None:
            return None
    return h.domain(cls)


def find(prog, name):
    return [c for c in prog.asn1_classes() if c.qual == name]


def check(ctx):
    p = ctx.prog
    h = TypedHooks(p)
    work = []

    def plan(cls, path, cases, oracle_only=None):
        m = registry(h, cls, path) if path else {}
        if path and not m:
            ctx.undec('%s: no registry behind %s' % (cls.qual, path))
            return
        names = sorted(set(x for x in m.values() if isinstance(x, str)))
        for label, fixed, want in cases(names):
            if want is None:
                ctx.undec('%s: no definition of %r' % (cls.qual, label))
                ctx.count('algorithms without a definition here')
                continue
            for acc, w in sorted(want.items()):
                work.append((cls, acc, label, fixed, w))

    for c in find(p, 'algos.SignedDigestAlgorithm'):
        def sig(names):
            for n in names:
                d = signature(n)
                yield n, {ALG: n}, d and dict(signature_algo=d[0], hash_algo=d[1], cms_hash_algo=d[2])
            for x in unknown_cases(('signature_algo', 'hash_algo', 'cms_hash_algo')):
                yield x
        plan(c, ALG, sig)
    for c in find(p, 'algos.EncryptionAlgorithm'):
        def enc(names):
            for x in encryption_cases(names):
                yield x
            for x in unknown_cases(('kdf', 'kdf_hmac', 'kdf_salt', 'kdf_iterations', 'key_length', 'encryption_mode', 'encryption_cipher',
                                    'encryption_block_size', 'encryption_iv')):
                yield x
        plan(c, ALG, enc)
    curves = find(p, 'keys.NamedCurve')
    for c in find(p, 'keys.ECDomainParameters'):
        m = h.domain(curves[0]) if curves else None
        for oid, n in sorted((m or {}).items()):
            b = curve_bits(n) if isinstance(n, str) else None
            if b is None:
                ctx.undec('no definition of the curve %r' % (n,))
                continue
            work.append((c, 'key_size', n, {'self.name': 'named', 'self/named.dotted': oid}, (b + 7) // 8))
        work.append((c, 'key_size', 'unknown curve', {'self.name': 'named', 'self/named.dotted': OTHER}, ERR))
        work.append((c, 'key_size', 'implicit curve', {'self.name': 'implicit_ca'}, ERR))
        work.append((c, 'key_size', 'specified curve', {'self.name': 'specified'}, src('self/specified/order')))
    for c, alg, key in [(x, 'private_key_algorithm', 'private_key') for x in find(p, 'keys.PrivateKeyInfo')] + \
                       [(x, 'algorithm', 'public_key') for x in find(p, 'keys.PublicKeyInfo')]:
        def keyinfo(names, alg=alg, key=key):
            a = 'self/%s/algorithm' % alg
            for n in sorted(names):
                d = dict(algorithm=n, curve=ERR, hash_algo=ERR, bit_size=ERR, byte_size=ERR)
                cases = [(n, {a: n}, d)]
                if n in ('rsa', 'rsaes_oaep', 'rsassa_pss'):
                    d['bit_size'] = d['byte_size'] = src('self/%s.parsed/modulus' % key)
                elif n == 'dsa':
                    d['bit_size'] = d['byte_size'] = src('self/%s/parameters/p' % alg)
                    del d['hash_algo']
                elif n == 'ec':
                    for x in ('curve', 'bit_size', 'byte_size'):
                        del d[x]
                    q = 'self/%s/parameters' % alg
                    cases.append(('ec with an implicit curve', {a: n, q + '.name': 'implicit_ca'}, {'curve': ('implicit_ca', None)}))
                    oids = dict((v, k) for k, v in (h.domain(curves[0]) or {}).items()) if curves else {}
                    if 'secp256r1' in oids:
                        f = {a: n, q + '.name': 'named', q + '/named': 'secp256r1', q + '/named.dotted': oids['secp256r1']}
                        w = {'curve': ('named', 'secp256r1')}
                        if key == 'private_key':
                            w.update(bit_size=256, byte_size=32)
                        else:
                            w.update(bit_size=src('self/public_key'), byte_size=src('self/public_key'))
                        cases.append(('ec with the curve secp256r1', f, w))
                elif n not in ('dh', 'x25519', 'x448', 'ed25519', 'ed448'):
                    cases = [(n, {a: n}, None)]
                for x in cases:
                    yield x
        plan(c, 'self/%s/algorithm' % alg, keyinfo)
    ctx.spread(work, one)
    ctx.need('algorithms x properties', 400)


def one(ctx, item):
    cls, acc, label, fixed, want = item
    f = getter(cls, acc)
    if f is None:
        ctx.undec('%s has no property %s' % (cls.qual, acc))
        return
    h = Fixed(ctx.prog, fixed)
    h.max_states = 200
    ip = Typed(ctx.prog, h, budget=60000)
    try:
        outs = ip.run(f, [('ref', 's')], initial(cls))
    except TooComplex:
        ctx.undec('%s.%s for %s: too many paths' % (cls.qual, acc, label))
        return
    ctx.count('algorithms x properties')
    w = wanted(want)
    seen = set()
    for o in outs:
        got = outcome(o)
        if got[0] == 'raise' and got[1] not in FAIL + ('ValueError', 'IndexError'):
            continue
        if got == w or got in seen:
            continue
        if got == ('raise', 'ValueError') and w[0] == 'from':
            continue                    # the component has no usable value
        if got[0] == 'from' and (w[0] != 'from' or not set(w[1:]) - set(got[1:])) and not (w[0] == 'from' and set(got[1:]) - set(w[1:])):
            if w[0] != 'from' and not (o.val[0] == 'sym' and '/' in o.val[1]):
                ctx.undec('%s.%s for %s: not folded (%s)' % (cls.qual, acc, label, show(got)))
                continue
            if w[0] == 'from':
                continue
        seen.add(got)
        at = owner(ctx.prog, o.node) if o.node is not None else None
        at = at or f
        ctx.report('%s.%s %s' % (cls.qual, acc, label), '%s:%s' % (at.module.relpath, getattr(o.node, 'lineno', f.node.lineno)),
                   '%s.%s for %s: %s, but by definition it is %s' % (cls.qual, acc, label, show(got), show(w)))
