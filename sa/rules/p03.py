"""P03: malformed headers and trailing data are refused everywhere."""
import ast

from ..elements import analysis, PH, octet_values, octet_atoms, evalv, callees, reach
from ..flow import Interp, State, K, NONE, TRUE, is_k, op, TooComplex
from ..arith import Facts, lin, sub, solve
from ..model import FuncInfo, ClassInfo

RULE = ('On every path on which the element parser hands on an element: class, method and low tag are the bits of the first byte '
        '(evaluated for all 256 byte values), a high tag is at least 31, does not start with 0x80 and is accumulated base 128; the length '
        'octet selects exactly one of short form, long form (big-endian, unsigned, the stated number of octets) or indefinite form; '
        'indefinite form only with the constructed bit set and 00 00 at the end; header, contents and trailer are adjacent ranges that '
        'end at the consumed position. Every entry point with a strict parameter raises ValueError unless parsing stopped at the end of '
        'the data. parser.emit returns only for class 0-3, method 0-1, tag >= 0.')
EXPLANATION = ('Byte-provenance and linear facts on every returning path of the element parser (see P01); strictness propagated through '
               'every function that has a strict parameter.')
ASSUMPTIONS = ['int.from_bytes and bytes slicing behave as documented']


def same(F, a, b):
    return a is not None and b is not None and F.entails(a, b) and F.entails(b, a)


def rng(v):
    lo = lin(v[3]) if v[3] != NONE else ({}, 0)
    hi = lin(v[4]) if v[4] != NONE else lin(op('len', v[2]))
    return lo, hi


def elements(ctx, an):
    exits = set()
    multi = False
    for fi, ip, o, t, env in an.tuples():
        ctx.count('element results')
        cls, meth, tag, hdr, cnt, trl = t[1]
        st = o.st
        F = Facts(ip, st)
        where = fi.where
        q = fi.qual
        if F.inconsistent():
            continue
        if not (cnt[0] == 'op' and cnt[1] == 'slice' and cnt[2] == hdr[2]):
            ctx.report('contents %s' % q, where, '%s does not take the contents from the same data as the header' % q)
            continue
        h0, h1 = rng(hdr)
        c0, c1 = rng(cnt)
        data = hdr[2]
        # first octet
        atoms = octet_atoms(cls)
        if len(atoms) != 1:
            ctx.report('class bits %s' % q, where, '%s does not take the class from the first byte of the element' % q)
            continue
        first = atoms[0]
        ctx.count('obligations')
        if not same(F, lin(first[3]), h0):
            ctx.report('header start %s' % q, where, '%s: the header handed on does not start at the byte the class is taken from' % q)
        vals = octet_values(first, st)
        if any(evalv(cls, {first: x}) != x >> 6 for x in vals):
            ctx.report('class bits %s' % q, where, '%s does not report bits 7-8 of the first byte as the class' % q)
        if any(evalv(meth, {first: x}) != (x >> 5) & 1 for x in vals):
            ctx.report('method bit %s' % q, where, '%s does not report bit 6 of the first byte as the method' % q)
        ctx.count('obligations', 2)
        low = [x for x in vals if x & 31 != 31]
        high = [x for x in vals if x & 31 == 31]
        ctx.count('obligations')
        if low and high:
            ctx.report('tag form %s' % q, where, '%s treats the high-tag form and the low-tag form alike on some path' % q)
        elif low:
            if any(evalv(tag, {first: x}) != x & 31 for x in low):
                ctx.report('tag bits %s' % q, where, '%s does not report bits 1-5 of the first byte as a low tag' % q)
        elif high:
            multi = True
            a = lin(tag)
            if a is None or not F.entails(({}, 31), a):
                ctx.report('tag minimal %s' % q, where, '%s accepts a tag below 31 written in the high-tag form' % q)
            n1 = byte_at(F, st, t, o, h0, 1, data)
            if n1 is None:
                ctx.report('tag octets %s' % q, where, '%s does not read the octets of a high tag from the byte after the first' % q)
            else:
                v1 = octet_values(n1, st)
                if 0x80 in v1:
                    ctx.report('tag leading %s' % q, where, '%s accepts a high tag whose first octet is 0x80' % q)
            last = [x for x in octet_atoms(tag)]
            if len(last) == 1:
                lv = octet_values(last[0], st)
                loops = loop_atoms(tag)
                if any(x >= 128 for x in lv):
                    ctx.report('tag end %s' % q, where, '%s ends a high tag at an octet whose continuation bit is set' % q)
                exits |= set(lv)
                good = True
                for x in lv:
                    for base in (0, 1, 5, 77):
                        s = {last[0]: x}
                        for l in loops:
                            s[l] = base
                        r = evalv(tag, s)
                        want = x & 127 if not loops else base * 128 + (x & 127)
                        if r is not None and r != want:
                            good = False
                        if r is None:
                            good = None if good else good
                if good is False:
                    ctx.report('tag base %s' % q, where, '%s does not accumulate a high tag base 128' % q)
                elif good is None:
                    ctx.undec('tag arithmetic of %s' % q)
        # adjacency
        ctx.count('obligations', 2)
        if not same(F, h1, c0):
            ctx.report('adjacent %s' % q, where, '%s: the contents handed on do not start where the header ends' % q)
        tl = None
        if is_k(trl) and isinstance(trl[2], bytes):
            tl = ({}, len(trl[2]))
        elif trl[0] == 'op' and trl[1] == 'slice':
            a, b = rng(trl)
            if not same(F, a, c1):
                ctx.report('trailer %s' % q, where, '%s: the trailer handed on does not start where the contents end' % q)
            tl = sub(b, a)
        end = None
        if tl is not None:
            end = add(c1, tl)
            others = [x for x in (o.val[1] if o.val[0] == 'tup' and len(o.val[1]) != 6 else ()) if x is not t and lin(x) is not None]
            if others and not any(same(F, lin(x), end) for x in others):
                ctx.report('consumed %s' % q, where, '%s: the consumed count is not the end of the trailer' % q)
        else:
            ctx.undec('trailer of %s' % q)
        length_form(ctx, F, ip, st, q, where, first, vals, h1, c0, c1, trl, tl, t, o, data)
    if multi and exits and not set(range(128)) - set([0]) <= exits | set([0]):
        ctx.report('tag end set', an.funcs[0].where, 'a high tag can only end at some octets without continuation bit: missing %s' % sorted(set(range(128)) - exits)[:5])


def add(a, b):
    return sub(a, (dict((k, -c) for k, c in b[0].items()), -b[1]))


def loop_atoms(v, out=None):
    if out is None:
        out = []
    if v[0] == 'op' and v[1] == 'loop':
        if v not in out:
            out.append(v)
    elif v[0] == 'op':
        for a in v[2:]:
            if isinstance(a, tuple) and a and isinstance(a[0], str):
                loop_atoms(a, out)
    return out


def all_atoms(st, t, o):
    out = octet_atoms(t)
    for c in st.facts:
        if isinstance(c, tuple) and c and c[0] in ('op', 'val'):
            octet_atoms(c if c[0] == 'op' else c[1], out)
    for v in st.heap.values():
        pass
    return out


def byte_at(F, st, t, o, base, off, data):
    want = (base[0], base[1] + off)
    for a in all_atoms(st, t, o):
        if a[2] == data and same(F, lin(a[3]), want):
            return a
    return None


def length_form(ctx, F, ip, st, q, where, first, vals, h1, c0, c1, trl, tl, t, o, data):
    ctx.count('obligations')
    diff = sub(c1, c0)
    nonempty = tl is not None and tl[0] == {} and tl[1] > 0
    atoms = all_atoms(st, t, o)
    prev = (h1[0], h1[1] - 1)
    L = None
    for a in atoms:
        if a[2] == data and same(F, lin(a[3]), prev):
            L = a
            break
    if nonempty:
        if L is None or octet_values(L, st) != [0x80]:
            ctx.report('indefinite %s' % q, where, '%s hands on a trailer for an element whose length octet is not 0x80' % q)
        if any(not x & 0x20 for x in vals):
            ctx.report('indefinite primitive %s' % q, where, '%s accepts an indefinite length on a primitive element' % q)
        if not (is_k(trl) and trl[2] == b'\0\0') and not (trl[0] == 'op'):
            ctx.report('trailer bytes %s' % q, where, '%s hands on a trailer that is not 00 00' % q)
        found = False
        for c, val in st.facts.items():
            if isinstance(c, tuple) and len(c) == 4 and c[0] == 'op' and c[1] == 'eq' and val is True:
                for x, y in ((c[2], c[3]), (c[3], c[2])):
                    if x[0] == 'op' and x[1] == 'slice' and is_k(y) and y[2] == b'\0\0' and same(F, rng(x)[0], c1):
                        found = True
            if isinstance(c, tuple) and c and c[0] == 'val' and is_k(val) and val[2] == b'\0\0' and c[1][0] == 'op' and c[1][1] == 'slice':
                if same(F, rng(c[1])[0], c1):
                    found = True
        if not found:
            if both_zero(F, st, atoms, c1, data):
                found = True
        if not found:
            ctx.report('end marker %s' % q, where, '%s hands on a trailer without having seen 00 00 at that place' % q)
        ctx.count('indefinite paths')
        return
    # long form: the number is decoded from the octets just before the contents
    nb = number(diff)
    if nb is not None:
        sl, ok = nb
        ctx.count('long-form paths')
        a, b = rng(sl)
        n = sub(b, a)
        if not same(F, b, c0):
            ctx.report('length octets %s' % q, where, '%s: the long-form length is not taken from the octets before the contents' % q)
        if not ok:
            ctx.report('length decoding %s' % q, where, '%s does not decode the long-form length as an unsigned big-endian number' % q)
        lo = None
        for x in atoms:
            if x[2] == data and same(F, lin(x[3]), (a[0], a[1] - 1)):
                lo = x
        if lo is None:
            ctx.report('length of length %s' % q, where, '%s: no octet before the long-form length was examined' % q)
            return
        lv = octet_values(lo, st)
        nat = [k for k in n[0]]
        for x in lv:
            r = evalv_lin(n, {lo: x})
            if r is None or r != x & 127 or x < 0x81:
                ctx.report('length of length %s' % q, where, '%s: a length octet of 0x%02x selects the long form with %s octets' % (q, x, r))
                break
        return
    if L is None:
        ctx.report('length octet %s' % q, where, '%s: the contents length does not depend on the byte before the contents' % q)
        return
    lv = octet_values(L, st)
    ctx.count('short-form paths')
    for x in lv:
        r = evalv_lin(diff, {L: x})
        if x >= 128 or r != x:
            ctx.report('short length %s' % q, where, '%s: a length octet of 0x%02x gives contents of length %s' % (q, x, r))
            break


def both_zero(F, st, atoms, c1, data):
    z = [False, False]
    for x in atoms:
        for i in (0, 1):
            if x[2] == data and same(F, lin(x[3]), (c1[0], c1[1] + i)) and octet_values(x, st) == [0]:
                z[i] = True
    return all(z)


def evalv_lin(e, s):
    tot = e[1]
    for a, c in e[0].items():
        v = evalv(a, s)
        if v is None:
            return None
        tot += c * v
    return tot


def number(diff):
    """(slice, proper) when a linear expression is one decoded number."""
    if len(diff[0]) != 1 or diff[1] != 0 or list(diff[0].values()) != [1]:
        return None
    a = list(diff[0])[0]
    return decoded(a)


def decoded(a):
    if a[0] != 'op':
        return None
    if a[1] in ('meth', 'builtin'):
        name = a[3] if a[1] == 'meth' else a[2]
        if not is_k(name) or not str(name[2]).endswith('from_bytes'):
            return None
        args = a[4:] if a[1] == 'meth' else a[3:]
        sl = [x for x in args if x[0] == 'op' and x[1] == 'slice']
        rest = [x for x in args if x not in sl]
        order = [x for x in rest if is_k(x)] + [x[3] for x in rest if x[0] == 'op' and x[1] == 'kwarg' and x[2] == K('byteorder')]
        signed = [x[3] for x in rest if x[0] == 'op' and x[1] == 'kwarg' and x[2] == K('signed')]
        if len(sl) == 1:
            return sl[0], order[:1] == [K('big')] and all(s == K(False) for s in signed)
    if a[1] == 'packcall':
        sl = [x for x in a[3:] if x[0] == 'op' and x[1] == 'slice']
        if len(sl) == 1:
            return sl[0], True
    return None


# ---------------------------------------------------------------- emit

def emission(ctx, an):
    fi = an.p.modules['parser'].env.get('emit')
    if fi not in an.results:
        ctx.undec('emit not analysed')
        return
    ip, outs, env = an.results[fi]
    ps = fi.params()
    lims = {0: (0, 3, 'class'), 1: (0, 1, 'method'), 2: (0, None, 'tag')}
    for o in outs:
        if o.kind != 'return':
            continue
        F = Facts(ip, o.st)
        if F.inconsistent():
            continue
        ctx.count('emission paths')
        for i, (lo, hi, what) in lims.items():
            v = lin(env[ps[i]])
            ctx.count('obligations')
            if not F.entails(({}, lo), v) or (hi is not None and not F.entails(v, ({}, hi))):
                ctx.report('emit %s' % what, fi.where, 'emit returns a header for a %s out of range' % what)
    ctx.need('emission paths', 1)


# ---------------------------------------------------------------- strict

class SH(PH):
    inline_depth = 4
    max_states = 80

    def __init__(self, an, strict):
        PH.__init__(self, an)
        self.dropped |= an.hooks.dropped
        self.strict = strict

    def inline(self, ip, fi, bound, frame):
        return False

    def is_data(self, ip, o, st):
        return False

    def implicit(self, ip, st, what, info, node, frame):
        return ()

    def rank(self, *a):
        pass

    def on_backedge(self, *a):
        pass

    def candidates(self, *a):
        return ()

    def construct_strict(self, cls):
        init = cls.method('__init__')
        return init if init in self.strict else None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        fi = fn[1] if fn[0] == 'fn' else None
        bound = fn[2] if fn[0] == 'fn' else None
        if fn[0] == 'cls':
            fi = self.construct_strict(fn[1])
            bound = ('sym', 'new', frozenset([fn[1]]))
        elif fn[0] not in ('fn',):
            if 'strict' in kwargs:
                s2 = st.fork()
                if ip.truth(kwargs['strict'], st) is not False:
                    s2.mon = (s2.mon or frozenset()) | frozenset([('delegated', True)])
                return [(op('call', fn, K(getattr(node, 'lineno', 0))), s2)]
            return None
        if fi in self.an.rec:
            env = ip.bind(fi, list(args), dict(kwargs), st.fork(), frame)
            s2 = st.fork()
            ret = op('packcall', fi.qual, *[env[p] for p in fi.params()]) if env else op('packcall', fi.qual)
            s2.mon = (s2.mon or frozenset()) | frozenset([('parsed', ret)])
            return [(ret, s2)]
        if fi in self.strict:
            env = ip.bind(fi, ([bound] if bound is not None else []) + list(args), dict(kwargs), st.fork(), frame)
            if env is None:
                return None
            s2 = st.fork()
            v = env.get('strict')
            passed = ip.truth(v, st) is True or v == ('sym', 'strict', None)
            s2.mon = (s2.mon or frozenset()) | frozenset([('delegated', passed)])
            return [(op('packcall', fi.qual, K(getattr(node, 'lineno', 0))), s2)]
        if fi is not None and fi in self.an.results and 'parse' in fi.name and fi not in self.strict:
            s2 = st.fork()
            s2.mon = (s2.mon or frozenset()) | frozenset([('parsed', op('packcall', fi.qual, K(getattr(node, 'lineno', 0))))])
            return [(op('packcall', fi.qual, K(getattr(node, 'lineno', 0))), s2)]
        return None


def is_len(v):
    a = lin(v)
    if a is None:
        return False
    return any(k[0] == 'op' and k[1] == 'len' for k in a[0])


def strictness(ctx, an):
    p = an.p
    strict = set()
    for f in p.functions():
        if 'strict' in f.params():
            strict.add(f)
    for f in sorted(strict, key=lambda x: x.qual):
        ctx.count('entry points with strict')
        h = SH(an, strict)
        ip = Interp(p, h, budget=400000)
        st = State()
        env = {}
        ps = f.params()
        nd = len(f.defaults)
        args = []
        for i, x in enumerate(ps):
            j = i - (len(ps) - nd)
            if i == 0 and f.cls is not None and f.kind == 'func':
                v = ('sym', x, frozenset([f.cls]))
            elif i == 0 and f.cls is not None and f.kind == 'classmethod':
                v = ('cls', f.cls)
            elif x == 'strict':
                v = ('sym', 'strict', None)
            elif j >= 0 and isinstance(f.defaults[j], int):
                v = K(f.defaults[j])
            else:
                v = ('sym', x, None)
            args.append(v)
        st.facts[('op', 'truth', ('sym', 'strict', None))] = True
        try:
            outs = ip.run(f, args, st)
        except TooComplex:
            ctx.undec('%s is too complex to follow' % f.qual)
            continue
        bad = None
        seen = False
        for o in outs:
            if o.kind != 'return':
                continue
            mon = o.st.mon or frozenset()
            if any(m[0] == 'delegated' and m[1] is False for m in mon):
                bad = 'calls a decoding function without passing strict on'
                seen = True
                continue
            if any(m[0] == 'delegated' for m in mon) and not any(m[0] == 'parsed' for m in mon):
                seen = True
                continue
            if any(m[0] == 'parsed' for m in mon):
                seen = True
                if not at_end(ip, o.st, mon):
                    bad = 'returns in strict mode without having established that parsing stopped at the end of the data'
        # a function that takes data but neither parses nor delegates
        if bad:
            ctx.report('strict %s' % f.qual, f.where, '%s %s' % (f.qual, bad))
        elif not seen and not covers(ctx, f, outs):
            ctx.report('strict ignored %s' % f.qual, f.where, '%s has a strict parameter that has no effect on what it accepts' % f.qual)
        ctx.sample('strict', f.qual)
    # public wrappers that decode: strict must be offered and passed
    ctx.need('entry points with strict', 3)


def covers(ctx, f, outs):
    """The strict test compares a position with the length of the data and raises."""
    for o in outs:
        if o.kind == 'return':
            for c, val in o.st.facts.items():
                if isinstance(c, tuple) and len(c) == 4 and c[0] == 'op' and c[1] == 'eq' and val is True and (is_len(c[2]) or is_len(c[3])):
                    return True
                if isinstance(c, tuple) and c and c[0] == 'val' and (is_len(c[1]) or (isinstance(val, tuple) and is_len(val))):
                    return True
    return False


def at_end(ip, st, mon):
    F = Facts(ip, st)
    rets = [m[1] for m in mon if m[0] == 'parsed']
    lens = set()
    for c in st.facts:
        if isinstance(c, tuple):
            collect_len(c, lens)
    for r in rets:
        for i in (0, 1):
            pos = lin(op('index', r, K(i)))
            for l in lens:
                if same(F, pos, lin(l)):
                    return True
    # positions accumulated over several parses
    for c, val in st.facts.items():
        if isinstance(c, tuple) and len(c) == 4 and c[0] == 'op' and c[1] == 'eq' and val is True and (is_len(c[2]) or is_len(c[3])):
            return True
    return False


def collect_len(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == 'op' and len(v) == 3 and v[1] == 'len':
            out.add(v)
        for a in v:
            if isinstance(a, tuple):
                collect_len(a, out)


def check(ctx):
    an = analysis(ctx.prog)
    ctx.count('functions analysed', len(an.funcs))
    elements(ctx, an)
    emission(ctx, an)
    strictness(ctx, an)
    ctx.need('element results', 1)
