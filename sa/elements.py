"""Analysis of the element parser (parser.parse / peek / emit and everything they call), shared by P01, P02 and P03."""
import ast

from .model import FuncInfo, ClassInfo, AnalysisBroken
from .flow import Interp, State, K, NONE, TRUE, is_k, op, Outcome, TooComplex, Frame
from . import flow
from .arith import Arith, Facts, lin, solve
from .effects import Resolver

BYTES = frozenset(['bytes'])
INT = frozenset(['int'])


def callees(prog, fi, cache={}):
    k = (id(prog), fi)
    if k in cache:
        return cache[k]
    r = Resolver(prog, fi)
    out = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not r.is_local(n.func.id):
            v = fi.module.env.get(n.func.id)
            if isinstance(v, FuncInfo):
                out.append((v, n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            m = fi.module.env.get(n.func.value.id)
            v = getattr(m, 'env', {}).get(n.func.attr) if hasattr(m, 'env') else None
            if isinstance(v, FuncInfo):
                out.append((v, n))
    cache[k] = out
    return out


def reach(prog, roots):
    seen, work = [], list(roots)
    while work:
        f = work.pop(0)
        if f in seen:
            continue
        seen.append(f)
        work += [c for c, _ in callees(prog, f)]
    return seen


def recursive(prog, fs):
    out = []
    for f in fs:
        if f in reach(prog, [c for c, _ in callees(prog, f)]):
            out.append(f)
    return out


class PH(Arith):
    inline_depth = 10

    def __init__(self, an):
        Arith.__init__(self, ())
        self.an = an
        self.rec = set(an.rec)
        self.events = {}
        self.top = None

    def note(self, kind, key, where, msg, ok):
        d = self.events.setdefault((kind, key), [True, where, msg])
        if not ok and d[0]:
            self.events[(kind, key)] = [False, where, msg]

    def w(self, frame, node):
        return '%s:%s' % (frame.fi.module.relpath, getattr(node, 'lineno', '?'))

    def inline(self, ip, fi, bound, frame):
        return fi not in self.rec

    # -- summaries of recursive functions
    def sum_candidates(self, fi):
        params = fi.params()
        for i in ('ret', 0, 1, 2):
            for p in params:
                yield ('sum', fi.qual, i, 'gt', p)
                yield ('sum', fi.qual, i, 'ge', p)
                yield ('sum', fi.qual, i, 'le', p)

    def pre_candidates(self, fi):
        params = fi.params()
        for p in params:
            yield ('pre', fi.qual, 'nonneg', p, None)
            for q in params:
                if q != p:
                    yield ('pre', fi.qual, 'islen', p, q)
                    yield ('pre', fi.qual, 'le', p, q)

    def pre_fact(self, c, env):
        _, _, kind, p, q = c
        if kind == 'nonneg':
            return (K(0), env[p])
        if kind == 'islen':
            return ('=', env[p], op('len', env[q]))
        return (env[p], env[q])

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn':
            for a in list(args) + list(kwargs.values()):
                if a[0] == 'op' and a[1] == 'slice' and self.is_data(ip, a[2], st) and fn[1].module.name != 'parser':
                    self.check_slice(ip, st, a, node, frame, 'decoded number')
        if fn[0] != 'fn' or fn[1] not in self.rec:
            return None
        fi = fn[1]
        env = ip.bind(fi, list(args), dict(kwargs), st.fork(), frame)
        if env is None:
            frame.raises.append(('TypeError', st.fork(), node))
            return []
        F = Facts(ip, st)
        for c in self.pre_candidates(fi):
            if c in self.dropped:
                continue
            g = self.pre_fact(c, env)
            if g[0] == '=':
                ok = F.entails(lin(g[1]), lin(g[2])) and F.entails(lin(g[2]), lin(g[1]))
            else:
                ok = lin(g[0]) is not None and lin(g[1]) is not None and F.entails(lin(g[0]), lin(g[1]))
            if not ok:
                self.dropped.add(c)
        if self.an.recursive_call(frame, fi):
            self.depth_check(ip, F, fi, env, st, node, frame)
        ret = op('packcall', fi.qual, *[env[p] for p in fi.params()])
        s2 = st.fork()
        for c in self.sum_candidates(fi):
            if c in self.dropped or lin(env[c[4]]) is None:
                continue
            comp = ret if c[2] == 'ret' else op('index', ret, K(c[2]))
            k = {'gt': op('lt', env[c[4]], comp), 'ge': op('le', env[c[4]], comp), 'le': op('le', comp, env[c[4]])}[c[3]]
            s2.facts[k] = True
        if s2.mon is None or not isinstance(s2.mon, frozenset):
            s2.mon = frozenset()
        s2.mon = s2.mon | frozenset([ret])
        frame.raises.append(('ValueError', st.fork(), node))
        return [(ret, s2)]

    def depth_check(self, ip, F, fi, env, st, node, frame):
        """Some argument grows on every recursive call and has a constant upper bound at the call."""
        ok = False
        outer = frame
        while outer is not None and outer.fi not in self.rec:
            outer = outer.parent
        if outer is None:
            return
        src = self.an.entry_env.get(outer.fi, {})
        for p in fi.params():
            a, b = lin(env[p]), lin(src.get(p)) if src.get(p) is not None else None
            if a is None or b is None:
                continue
            if F.entails((b[0], b[1] + 1), a) and F.entails(a, ({}, 500)):
                ok = True
                self.an.depth_param = p
            if F.entails((a[0], a[1] + 1), b) and F.entails(({}, 0), a):
                ok = True
                self.an.depth_param = p
        self.note('depth', 'recursion %s' % outer.fi.qual, self.w(frame, node),
                  'recursive call in %s: no argument is shown to grow towards a fixed limit, so the nesting depth is not bounded' % outer.fi.qual, ok)

    # -- reads
    def is_data(self, ip, o, st):
        ts = ip.types(o, st)
        return ts is not None and ts <= frozenset(['bytes', 'bytearray']) and o[0] == 'sym'

    def implicit(self, ip, st, what, info, node, frame):
        if what == 'getitem' and self.is_data(ip, info[0], st):
            F = Facts(ip, st)
            i = lin(info[1])
            ok = i is not None and F.entails(({}, 0), i) and F.entails((i[0], i[1] + 1), lin(op('len', info[0])))
            self.note('read', 'index %s' % frame.fi.qual, self.w(frame, node),
                      '%s reads a byte at an index not shown to lie inside the data (may raise IndexError or read from the end)' % frame.fi.qual, ok)
        elif what == 'format':
            a, b = info
            if is_k(a) and isinstance(a[2], str):
                import re
                n = len(re.findall(r'%[-#0 +]*[0-9.]*[a-zA-Z]', a[2].replace('%%', '')))
                m = len(b[1]) if b[0] == 'tup' else 1
                self.note('format', 'message %s' % frame.fi.qual, self.w(frame, node), '%s formats a message with %d values for %d places' % (frame.fi.qual, m, n), n == m)
        return ()

    def check_slice(self, ip, st, v, node, frame, what):
        o, lo, hi, step = v[2], v[3], v[4], v[5]
        F = Facts(ip, st)
        a = lin(lo) if lo != NONE else ({}, 0)
        b = lin(hi) if hi != NONE else lin(op('len', o))
        ok = (a is not None and b is not None and step == NONE and F.entails(({}, 0), a) and F.entails(a, b) and
              F.entails(b, lin(op('len', o))))
        self.note('slice', '%s %s' % (what, frame.fi.qual), self.w(frame, node),
                  '%s takes its %s from a range not shown to lie inside the data (it would be silently cut short)' % (frame.fi.qual, what), ok)

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        if name == 'from_bytes' or (name == 'unpack'):
            for a in args:
                if a[0] == 'op' and a[1] == 'slice' and self.is_data(ip, a[2], st):
                    self.check_slice(ip, st, a, node, frame, 'decoded number')
        return None

    # -- returns of recursive functions
    def finish(self, ip, fi, outs, entry):
        for o in outs:
            if o.kind != 'return':
                continue
            F = Facts(ip, o.st)
            for c in self.sum_candidates(fi):
                if c in self.dropped:
                    continue
                v = o.val
                if c[2] != 'ret':
                    v = v[1][c[2]] if v[0] == 'tup' and c[2] < len(v[1]) else None
                a = lin(v) if v is not None else None
                b = lin(entry[c[4]])
                ok = a is not None and b is not None
                if ok:
                    ok = {'gt': lambda: F.entails((b[0], b[1] + 1), a), 'ge': lambda: F.entails(b, a), 'le': lambda: F.entails(a, b)}[c[3]]()
                if not ok:
                    self.dropped.add(c)

    # -- progress of loops
    def rank(self, ip, F, head, st, names, entry, node, frame):
        if not isinstance(node, ast.While):
            return
        ok = False
        for n in sorted(names):
            old, new = head.env.get(n), st.env.get(n)
            if not isinstance(old, tuple) or not isinstance(new, tuple):
                continue
            a, b = lin(old), lin(new)
            if a is None or b is None:
                continue
            if F.entails((a[0], a[1] + 1), b):
                # bounded above by something the loop does not change
                for bn, bv in [(x, v) for x, v in sorted(entry.env.items()) if isinstance(v, tuple) and not x.startswith('#')]:
                    cands = [lin(bv)] if x_not_in(bn, names) else []
                    cands.append(lin(op('len', bv)))
                    for c in cands:
                        if c is not None and (F.entails(b, c) or F.entails(a, c)):
                            ok = True
                if F.entails(b, ({}, 1 << 16)):
                    ok = True
            elif F.entails((b[0], b[1] + 1), a) and F.entails(({}, 0), a):
                ok = True
            if ok:
                break
        self.note('loop', 'loop %s' % loop_name(frame.fi, node), self.w(frame, node),
                  'an iteration of the loop in %s is not shown to make progress towards a bound' % frame.fi.qual, ok)
        if not isinstance(node, ast.While):
            return


def x_not_in(n, names):
    return n not in names


def loop_name(fi, node):
    loops = [n for n in ast.walk(fi.node) if isinstance(n, ast.While)]
    return '%s#%d' % (fi.qual, loops.index(node) if node in loops else 0)


# ---------------------------------------------------------------- octet reasoning

def octet_atoms(v, out=None):
    if out is None:
        out = []
    if isinstance(v, tuple) and v:
        if v[0] == 'op' and v[1] == 'index' and v[2][0] == 'sym':
            if v not in out:
                out.append(v)
        if v[0] == 'op':
            for a in v[2:]:
                if isinstance(a, tuple):
                    octet_atoms(a, out)
        elif v[0] == 'tup':
            for a in v[1]:
                octet_atoms(a, out)
    return out


def evalv(v, sub):
    """Evaluate an operation term under a substitution; None when it depends on anything else."""
    if v in sub:
        return sub[v]
    if v[0] == 'k':
        return v[2]
    if v[0] != 'op':
        return None
    n = v[1]
    if n in ('add', 'sub', 'mul', 'bitand', 'bitor', 'bitxor', 'lshift', 'rshift', 'mod', 'floordiv', 'eq', 'lt', 'le', 'is'):
        a, b = evalv(v[2], sub), evalv(v[3], sub)
        if a is None or b is None:
            return None
        try:
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'bitand': lambda: a & b, 'bitor': lambda: a | b,
                    'bitxor': lambda: a ^ b, 'lshift': lambda: a << b, 'rshift': lambda: a >> b, 'mod': lambda: a % b,
                    'floordiv': lambda: a // b, 'eq': lambda: a == b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'is': lambda: a is b}[n]()
        except (TypeError, ValueError, ZeroDivisionError):
            return None
    if n == 'not':
        a = evalv(v[2], sub)
        return None if a is None else not a
    if n == 'truth':
        a = evalv(v[2], sub)
        return None if a is None else bool(a)
    if n == 'in' and v[3][0] == 'tup':
        a = evalv(v[2], sub)
        bs = [evalv(x, sub) for x in v[3][1]]
        return None if a is None or None in bs else a in bs
    if n == 'builtin' and v[2] == K('ord') and len(v) == 4:
        return evalv(v[3], sub)
    return None


def octet_values(atom, st, fixed=None):
    """Values of one data byte consistent with the path's conditions on it alone."""
    conds = []
    for c, val in st.facts.items():
        if isinstance(c, tuple) and c and c[0] == 'op' and isinstance(val, bool):
            conds.append((c, val))
        elif isinstance(c, tuple) and c and c[0] == 'val' and is_k(val):
            conds.append((op('eq', c[1], val), True))
    conds = [(c, val) for c, val in conds if octet_atoms(c) == [atom]]
    out = []
    for x in range(256):
        good = True
        for c, val in conds:
            r = evalv(c, {atom: x})
            if r is not None and bool(r) != val:
                good = False
                break
        if good:
            out.append(x)
    return out


class Analysis(object):
    def __init__(self, prog):
        self.p = prog
        m = prog.modules.get('parser')
        if m is None:
            raise AnalysisBroken('parser module not found')
        self.public = [m.env.get(n) for n in ('parse', 'peek', 'emit')]
        if not all(isinstance(f, FuncInfo) for f in self.public[:2]):
            raise AnalysisBroken('parser.parse / parser.peek not found')
        self.public = [f for f in self.public if isinstance(f, FuncInfo)]
        self.funcs = reach(prog, self.public)
        self.rec = recursive(prog, self.funcs)
        self.entry_env = {}
        self.results = {}
        self.depth_param = None
        old = flow.MAXDEPTH
        flow.MAXDEPTH = 24
        flow.depth.__defaults__ = (26,)
        try:
            self.hooks = solve(self.make, self.run)
        finally:
            flow.MAXDEPTH = old
            flow.depth.__defaults__ = (old + 2,)

    def recursive_call(self, frame, fi):
        f = frame
        while f is not None:
            if f.fi in self.rec:
                return True
            f = f.parent
        return False

    def make(self):
        return PH(self)

    def sym_types(self, fi, p, d, const):
        """Parameter types of an internal function: bytes when indexed or sliced, otherwise integer unless its default is a bool."""
        idx = False
        for f in reach(self.p, [fi]):
            for n in ast.walk(f.node):
                if f is fi and isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
                    idx = True
        if idx:
            return BYTES
        if isinstance(d, bool):
            return frozenset(['bool'])
        for f, calls in [(g, callees(self.p, g)) for g in self.funcs]:
            for c, n in calls:
                pass
        return INT

    def run(self, h):
        self.results = {}
        for fi in self.rec:
            ip = Interp(self.p, h, budget=3000000)
            st = State()
            env = {}
            ps = fi.params()
            nd = len(fi.defaults)
            for i, p in enumerate(ps):
                j = i - (len(ps) - nd)
                d = fi.defaults[j] if j >= 0 else None
                env[p] = ('sym', p, self.sym_types(fi, p, d, None))
            self.entry_env[fi] = env
            for c in h.pre_candidates(fi):
                if c in h.dropped:
                    continue
                g = h.pre_fact(c, env)
                if g[0] == '=':
                    if env[c[3]][2] == INT and env[c[4]][2] == BYTES:
                        st.facts[op('eq', g[1], g[2])] = True
                elif all(x[0] == 'k' or x[2] == INT for x in g):
                    st.facts[op('le', g[0], g[1])] = True
            outs = ip.run(fi, [env[p] for p in ps], st)
            h.finish(ip, fi, outs, env)
            self.results[fi] = (ip, outs, env)
        for fi in self.public:
            if fi in self.rec:
                continue
            ip = Interp(self.p, h, budget=3000000)
            env = dict((p, ('sym', p, None)) for p in fi.params())
            self.entry_env[fi] = env
            outs = ip.run(fi, [env[p] for p in fi.params()], State())
            self.results[fi] = (ip, outs, env)

    # ---- element tuples
    def tuples(self):
        """(function, interp, outcome, six-tuple, enclosing return value)"""
        for fi, (ip, outs, env) in self.results.items():
            for o in outs:
                if o.kind != 'return':
                    continue
                for t in self.six(o.val):
                    yield fi, ip, o, t, env

    def six(self, v):
        if v[0] == 'tup':
            if len(v[1]) == 6 and v[1][3][0] == 'op' and v[1][3][1] == 'slice':
                yield v
            for x in v[1]:
                if isinstance(x, tuple) and x and x[0] == 'tup':
                    for y in self.six(x):
                        yield y


_cache = {}


def analysis(prog):
    if id(prog) not in _cache:
        _cache[id(prog)] = Analysis(prog)
    return _cache[id(prog)]


# ---------------------------------------------------------------- callers elsewhere in the package

class CH(PH):
    """A function outside the parser module that calls the element parser: nothing is inlined but the parser's summary is used."""
    inline_depth = 3
    max_states = 60

    def __init__(self, an, target):
        PH.__init__(self, an)
        self.dropped |= an.hooks.dropped
        self.base = set(an.hooks.dropped)
        self.target = target

    def inline(self, ip, fi, bound, frame):
        # private helpers that themselves reach the parser, or the parser's public wrappers
        return False

    def is_data(self, ip, o, st):
        return False

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] != 'fn' or fn[1] not in self.rec:
            return None
        fi = fn[1]
        env = ip.bind(fi, list(args), dict(kwargs), st.fork(), frame)
        if env is None:
            return None
        F = Facts(ip, st)
        types = self.an.entry_env[fi]
        for c in self.pre_candidates(fi):
            if c in self.base:
                continue
            p, q = c[3], c[4]
            if types[p][2] != INT or (q is not None and types[q][2] not in (INT, BYTES)):
                continue
            if c[2] == 'le' and (q is None or types[q][2] != INT):
                continue
            # only what the reads rely on: the length is the data's length, the position is not negative
            if c[2] == 'islen':
                g = self.pre_fact(c, env)
                a, b = lin(g[1]), lin(g[2])
                ok = a is not None and b is not None and F.entails(a, b) and F.entails(b, a)
                self.note('caller', 'length %s' % frame.fi.qual, self.w(frame, node),
                          '%s passes a length that is not shown to be the length of the data it passes' % frame.fi.qual, ok)
            elif c[2] == 'nonneg' and p not in [x[3] for x in self.pre_candidates(fi) if x[2] == 'islen' and x not in self.base] and is_pos(self.an, fi, p):
                a = lin(env[p])
                ok = a is not None and F.entails(({}, 0), a)
                if env[p][0] == 'sym':
                    continue
                self.note('caller', 'position %s' % frame.fi.qual, self.w(frame, node),
                          '%s passes a start position that is not shown to be non-negative' % frame.fi.qual, ok)
        ret = op('packcall', fi.qual, *[env[p] for p in fi.params()])
        s2 = st.fork()
        for c in self.sum_candidates(fi):
            if c in self.base or lin(env[c[4]]) is None:
                continue
            comp = ret if c[2] == 'ret' else op('index', ret, K(c[2]))
            k = {'gt': op('lt', env[c[4]], comp), 'ge': op('le', env[c[4]], comp), 'le': op('le', comp, env[c[4]])}[c[3]]
            s2.facts[k] = True
        frame.raises.append(('ValueError', st.fork(), node))
        return [(ret, s2)]


def is_pos(an, fi, p):
    return ('sum', fi.qual, 1, 'gt', p) not in an.hooks.dropped and ('sum', fi.qual, 1, 'gt', p) in list(an.hooks.sum_candidates(fi))


def callers(prog, an):
    """Functions outside the element parser that call a recursive parser function directly."""
    for f in prog.functions():
        if f in an.funcs:
            continue
        if any(c in an.rec for c, _ in callees(prog, f)):
            yield f


def analyse_callers(prog, an):
    """-> ({(kind, key): [ok, where, msg]}, functions, undecided)"""
    events, names, und = {}, [], []
    for f in callers(prog, an):
        dropped = set()
        names.append(f.qual)
        last = None
        try:
            for _ in range(12):
                h = CH(an, f)
                h.dropped |= dropped
                ip = Interp(prog, h, budget=400000)
                st = State()
                env = {}
                args = []
                for i, p in enumerate(f.params()):
                    t = None
                    if i == 0 and f.cls is not None and f.kind == 'func':
                        t = frozenset([f.cls])
                    v = ('sym', p, t)
                    args.append(v)
                an.entry_env.setdefault(f, {})
                ip.run(f, args, st)
                last = h
                if h.dropped <= dropped | h.base:
                    break
                dropped |= h.dropped
        except TooComplex:
            und.append('%s is too complex to follow' % f.qual)
            if last is None:
                continue
        for k, v in last.events.items():
            if k[0] in ('caller', 'loop'):
                events[k] = v
    return events, names, und
