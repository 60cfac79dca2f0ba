"""S07: each extension accessor returns the extension it is named after."""
import re
from ..flow import TooComplex, NONE, K, is_k
from ..model import FuncInfo, PropertyInfo
from ..typed import Typed, TypedHooks, initial
from ..reading import reads

RULE = ('for a structure holding the extensions E (none, each known extension alone, critical or not, an unknown one, all together in either order), whichever accessor '
        'is read first, `X_value` evaluates to the parsed value of the element of E whose identifier is X, to None when there is none or the list is '
        'absent, and the set of critical extensions to exactly the identifiers of the elements marked critical')
EXPLANATION = ('Every accessor named after an extension is interpreted from its source on a structure whose extension list is a sequence of symbolic '
               'elements with constant identifiers and criticality; computed attribute names, memo fields and loops fold to constants, components keep '
               'their identity as paths. The result must be the path of the right element.')
ASSUMPTIONS = ['an identifier occurs once in a list of extensions (RFC 5280 4.2)', 'an OCSP response is a basic response (RFC 6960 4.2.1)']

# structure -> component holding its extensions (RFC 5280, RFC 6960)
HOLDERS = [('x509', 'Certificate', 'tbs_certificate/extensions'), ('crl', 'CertificateList', 'tbs_cert_list/crl_extensions'),
           ('crl', 'RevokedCertificate', 'crl_entry_extensions'), ('ocsp', 'Request', 'single_request_extensions'),
           ('ocsp', 'OCSPRequest', 'tbs_request/request_extensions'), ('ocsp', 'SingleResponse', 'single_extensions'),
           ('ocsp', 'OCSPResponse', 'response_bytes/response/tbs_response_data/response_extensions')]
UNKNOWN = '1.2.840.999999.7'


def plain(path):
    """path without .parsed and without the root"""
    return '/'.join(x.split('.')[0] for x in path.split('/')[1:])


class Fixed(Typed):
    def concrete_iter(self, it, st):
        n = self.h.node(self, st, it)
        if n is not None and self.h.holds(n):
            return [self.h.item(n, i) for i in range(len(self.h.exts))]
        return Typed.concrete_iter(self, it, st)


class Hooks(TypedHooks):
    def __init__(self, prog, where):
        TypedHooks.__init__(self, prog)
        self.where, self.exts = where, ()
        self.loops = 0

    def on_loop(self, ip, node, frame):
        self.loops += 1         # a loop whose rounds are not known

    def holds(self, n):
        if plain(n[1]) == self.where and self.kind(n[0]) == 'SequenceOf':
            return True
        return False

    def item(self, n, i):
        return self.mk('%s/%d' % (n[1], i), n[0].get('_child_spec'))

    def of(self, path):
        """(element, component) a path leads to"""
        m = re.match('^%s/([0-9]+)/([a-z_]+)$' % re.escape(self.where), plain(path))
        return (self.exts[int(m.group(1))], m.group(2)) if m and int(m.group(1)) < len(self.exts) else (None, None)

    def native(self, ip, st, n):
        e, c = self.of(n[1])
        if c == 'extn_id':
            return K(e[0])
        if c == 'critical':
            return K(e[1])
        return TypedHooks.native(self, ip, st, n)

    def child(self, ip, st, n, name, node, frame):
        for v, s in TypedHooks.child(self, ip, st, n, name, node, frame):
            m = self.node(ip, s, v)
            if m is not None and self.of(m[1])[1] == 'extn_id':     # later uses of its domain agree
                self.narrow(s, ('sym', m[1] + '.native', frozenset(['str'])), frozenset([self.of(m[1])[0][0]]))
            yield v, s

    def specs(self, ip, st, n, i, spec, path, node, frame):
        out = TypedHooks.specs(self, ip, st, n, i, spec, path, node, frame)
        if self.of(path)[1] == 'extn_value' and not out:
            out = [(self.mk(path, spec), st.fork())]
        return out

    def component(self, ip, st, n, k, node, frame):
        if self.holds(n) and is_k(k) and isinstance(k[2], int):
            i = k[2] if k[2] >= 0 else len(self.exts) + k[2]
            if not 0 <= i < len(self.exts):
                self.push(frame, st, node, 'IndexError', 'S07', 'no such extension')
                return []
            return [(self.item(n, i), st)]
        return TypedHooks.component(self, ip, st, n, k, node, frame)

    def getattr(self, ip, st, o, attr, node, frame):
        n = self.node(ip, st, o)
        if n is not None and attr == 'dotted':
            e, c = self.of(n[1])
            if c == 'extn_id':
                inv = dict((v, k) for k, v in (self.domain(n[0]) or {}).items())
                return [(K(inv.get(e[0], e[0])), st)]
        return TypedHooks.getattr(self, ip, st, o, attr, node, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[2] is not None and fn[1].module.name == 'core':
            n = self.node(ip, st, fn[2])
            if n is not None and self.holds(n):
                if fn[1].name == '__len__':
                    return [(K(len(self.exts)), st)]
                if fn[1].name == '__iter__':
                    return [(fn[2], st)]
        return TypedHooks.call(self, ip, st, fn, args, kwargs, node, frame)

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if isinstance(attr, tuple) and obj == ('ref', 's'):
            st.setf('s', '__vague__', True)     # a field whose name is not known
        TypedHooks.on_store(self, ip, st, obj, attr, val, node, frame)


def absent(h, st):
    """The list of extensions, or something it is in, is absent on this path."""
    want = h.where.split('/')
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == 'val' and v == h.void and k[1][0] == 'sym':
            p = plain(k[1][1]).split('/')
            if p == want[:len(p)]:
                return True
    return False


def present(h, st):
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == 'val' and v != h.void and k[1][0] == 'sym' and plain(k[1][1]) == h.where:
            return True
    return False


def names_in(v, st):
    """The constants a set holds; None if not known."""
    if v[0] == 'ref' and v[1] in st.heap:
        c = st.heap[v[1]].get('__const__')
        if c is not None and all(is_k(x) for x in c):
            return frozenset(x[2] for x in c)
    if v[0] == 'sc':
        return frozenset(v[1].obj)
    if v[0] == 'tup' and all(is_k(x) for x in v[1]):
        return frozenset(x[2] for x in v[1])
    return None


class Job(object):
    def __init__(self, ctx, c, where, accessors, names):
        self.ctx, self.c, self.accs, self.names = ctx, c, accessors, names
        self.h = Hooks(ctx.prog, where)

    def run(self, f, st):
        st.env = {}
        self.h.loops = 0
        ip = Fixed(self.ctx.prog, self.h, budget=400000)
        self.ctx.count('evaluations')
        try:
            return ip, ip.run(f, [('ref', 's')], st)
        except TooComplex:
            return ip, None

    def expected(self, name, st):
        """Index of the extension an accessor stands for, or None."""
        ids = [e[0] for e in self.h.exts]
        return ids.index(name) if name in ids and not absent(self.h, st) else None

    def judge(self, name, ip, o, how):
        """one outcome of reading accessor `name` (None: the set of critical extensions)"""
        h, ctx, c = self.h, self.ctx, self.c
        if h.loops:
            ctx.undec('%s: loop over something other than the extensions' % c.qual)
            return
        label = '%s.%s' % (c.qual, name + '_value' if name else 'critical_extensions')
        f = dict(self.accs)[name]
        where = '%s:%s' % (f.module.relpath, f.node.lineno)
        if o.kind == 'raise':
            if o.val in ('ValueError',) and o.node is not None:
                return
            ctx.report('%s fails' % label, '%s:%s' % (f.module.relpath, getattr(o.node, 'lineno', '?')), '%s fails with %s%s' % (label, o.val, how))
            return
        if o.kind not in ('return', 'fall'):
            return
        v = ip.resolve(o.val, o.st) if o.val is not None else NONE
        if name is None:
            got = names_in(v, o.st)
            want = frozenset(e[0] for e in h.exts if e[1]) if not absent(h, o.st) else frozenset()
            if got is None:
                ctx.undec('%s: result not recognised%s' % (label, how))
            elif got != want:
                ctx.report('%s wrong' % label, where, '%s is %s instead of %s%s' % (label, sorted(got), sorted(want), how))
            return
        i = self.expected(name, o.st)
        if v == NONE:
            if i is not None and o.st.heap['s'].get('__vague__'):
                ctx.undec('%s: fields stored under computed names%s' % (label, how))
            elif i is not None:
                ctx.report('%s missing' % label, where, '%s is None although the extension is there%s' % (label, how))
            return
        n = h.node(ip, o.st, v)
        path = n[1] if n is not None else v[1] if v[0] == 'sym' else None
        if path is None or not isinstance(path, str):
            if is_k(v):
                ctx.report('%s wrong' % label, where, '%s is the constant %r%s' % (label, v[2], how))
            else:
                ctx.undec('%s: result not recognised%s' % (label, how))
            return
        if i is None:
            ctx.report('%s present' % label, where, '%s is %s although there is no such extension%s' % (label, path, how))
        elif not (plain(path) == '%s/%d/extn_value' % (h.where, i) and path.endswith('.parsed')):
            ctx.report('%s other' % label, where, '%s is %s, not the parsed value of the extension %s%s' % (label, path, name, how))

    def scenario(self, exts, first, rest):
        """`first` read on a fresh structure with the extensions, then each accessor of `rest`."""
        self.h.exts = tuple(exts)
        self.ctx.count('lists and orders')
        short = [e[0] + ('!' if e[1] else '') for e in exts]
        how = ' (extensions: %s%s)' % (', '.join(short[:4]) or 'none', ', ...' if len(short) > 4 else '')
        d = dict(self.accs)
        st = initial(self.c)
        if 'response' in self.h.where.split('/'):       # the only type of response with extensions
            self.h.narrow(st, ('sym', 'self/response_bytes/response_type.native', frozenset(['str'])), frozenset(['basic_ocsp_response']))
        ip, outs = self.run(d[first], st)
        if outs is None:
            self.ctx.undec('%s: too many paths' % d[first].qual)
            return
        for o in outs:
            self.judge(first, ip, o, how)
        for o in outs:
            if o.kind not in ('return', 'fall') or not (present(self.h, o.st) or absent(self.h, o.st)):
                continue
            for name in rest if not self.h.loops else ():
                ip2, outs2 = self.run(d[name], o.st.fork())
                if outs2 is None:
                    self.ctx.undec('%s: too many paths' % d[name].qual)
                    continue
                for o2 in outs2:
                    self.judge(name, ip2, o2, how + (' after %s_value was read' % first if first else ' after critical_extensions was read'))


def extension_names(h, c, where):
    """names of the identifiers the elements of the list can have, found through the definitions"""
    cur = c
    for x in where.split('/'):
        nxt = dict((f[0], f[1]) for f in h.fields(cur)).get(x)
        if x == 'response' and nxt is not None:         # the decoded content of the octet string
            for j, (fname, _, _) in enumerate(h.fields(cur)):
                t = h.table(cur, j)
                if fname == x and t:
                    inner = [v[1] for v in t[1].values() if v[1] is not None]
                    nxt = inner[0] if inner else nxt
        cur = nxt
        if cur is None:
            return None
    e = cur.get('_child_spec')
    ident = dict((f[0], f[1]) for f in h.fields(e)).get('extn_id') if e is not None else None
    m = h.domain(ident) if ident is not None else None
    return sorted(set(m.values())) if m else None


def check(ctx):
    jobs = []
    for mod, cn, where in HOLDERS:
        c = ctx.prog.modules[mod].env.get(cn) if mod in ctx.prog.modules else None
        if c is None:
            ctx.undec('%s.%s is not defined' % (mod, cn))
            continue
        accs = []
        for n, f in reads(c):
            if n == 'critical_extensions':
                accs.append((None, f))
            elif n.endswith('_value') and not n.startswith('_') and f.module.name != 'core':
                accs.append((n[:-6], f))
        names = extension_names(Hooks(ctx.prog, where), c, where)
        if names is None:
            ctx.undec('%s: extension identifiers not found' % c.qual)
            continue
        ctx.count('structures')
        ctx.count('accessors', len(accs))
        for n, f in accs:
            if n is not None and n not in names:
                ctx.report('%s.%s_value' % (c.qual, n), '%s:%s' % (f.module.relpath, f.node.lineno), 'no extension named %s can be in %s' % (n, where))
        accs.sort(key=lambda x: x[0] or '')
        jobs += [(c, where, accs, names, a) for a, _ in accs]

    def one(part, job):
        c, where, accs, names, a = job
        j = Job(part, c, where, accs, names)
        alone = names + [UNKNOWN]
        for n in alone:
            for crit in (False, True):
                j.scenario([(n, crit)], a, [a] if n != a else [x for x, _ in accs])
        j.scenario([], a, [x for x, _ in accs])
        every = [(n, i % 2 == 0) for i, n in enumerate(alone)]
        j.scenario(every, a, [x for x, _ in accs])
        j.scenario([(n, not k) for n, k in reversed(every)], a, [x for x, _ in accs])
    ctx.spread(jobs, one)
    ctx.need('structures', 4)
    ctx.need('accessors', 25)
