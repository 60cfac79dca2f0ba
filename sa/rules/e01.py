"""E01: comparison accepts anything, is symmetric and agrees with hashing."""
import ast
import re
from ..accessors import owner
from ..flow import TooComplex, NONE, K, is_k, op, deps
from ..model import ClassInfo, FuncInfo, PropertyInfo
from ..fold import Fold
from ..build import ClassState
from ..typed import Typed, TypedHooks, initial

RULE = ('__eq__ returns a boolean for None, a number, text, bytes, a type and values of unrelated ASN.1 types (no path ends in an exception other than an '
        'explicit ValueError); the comparisons it makes, over all paths, are closed under exchanging the two operands; __ne__ returns the negation of '
        '__eq__; what a hash is computed from is among what __eq__ compares, and collections that are equal in another '
        'order of their elements hash alike; a value equals itself; sets compare without regard to order')
EXPLANATION = ('Every __eq__ the library defines is interpreted with typed operands, once per kind of other operand and once with two arbitrary values of '
               'the type. Each comparison is recorded as a pair of terms over the components of the operands; exchanging the operands in a term must '
               'give a term that is compared as well. The equality itself is opaque while __ne__ is interpreted.')
ASSUMPTIONS = ['native comparison of strings, numbers and containers is symmetric', 'Python tries the more derived operand first']


class Cmp(Typed):
    def compare(self, o, a, b, st, node, frame):
        if self.h.record is not None:
            x, y = self.h.term(self, a, st), self.h.term(self, b, st)
            kind = 'in' if isinstance(o, (ast.In, ast.NotIn)) else 'is' if isinstance(o, (ast.Is, ast.IsNot)) else 'eq'
            if isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                kind = 'order'
                if isinstance(o, (ast.Gt, ast.GtE)):
                    x, y = y, x
                x, y = ordered(x, y)
            self.h.record.setdefault((kind, x, y), (frame.fi, node))
        if isinstance(o, ast.NotEq) and a == ('ref', 's') and b == ('ref', 'x') and self.h.opaque_eq:
            v, ow = self.cls_of(a, st).lookup('__ne__')
            if any(f.fi is v for f in frame.stack()):
                self.h.push(frame, st, node, 'RecursionError', 'E01', 'calls itself')
                return []
        return Typed.compare(self, o, a, b, st, node, frame)


    def assume(self, c, val, st):
        inner = c[2] if c[0] == 'op' and c[1] in ('truth', 'not') else c
        if self.h.record is not None and inner[0] == 'op' and inner[1] in ('sub', 'meth', 'bitand', 'bitxor', 'call', 'builtin', 'packcall'):
            t = self.h.term(self, inner, st)
            if len(set(x.split('/')[0].split('.')[0] for x in leaves(t, set())) & {'self', 'other'}) == 2:
                self.h.record.setdefault(('cond', t, t), (self.h.outer, self.h.outer.node))
        return Typed.assume(self, c, val, st)


class Hooks(TypedHooks):
    record = None
    opaque_eq = False
    outer = None
    used = False            # operands that have been read, assigned or tagged before
    loops = 0

    def on_loop(self, ip, node, frame):
        self.loops += 1

    EQ = ('sym', 'EQ', frozenset(['bool']))

    def inline(self, ip, fi, bound, frame):
        return fi.module.name not in self.skip_inline or fi.node.name in ('__eq__', '__ne__', '__cmp__') or frame.fi is None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[1].name == '__eq__' and (self.opaque_eq or fn[1] is not self.outer):
            if self.opaque_eq and fn[2] == ('ref', 's') and args and args[0] == ('ref', 'x'):
                return [(self.EQ, st)]
            n = self.node(ip, st, fn[2]) if fn[2] is not None else None
            if n is not None and fn[2][0] == 'sym':
                return [(op('eq', fn[2], *args[:1]), st)]
        return TypedHooks.call(self, ip, st, fn, args, kwargs, node, frame)

    def getattr(self, ip, st, o, attr, node, frame):
        if is_k(o) and o != NONE and attr != '__class__' and not hasattr(o[2], attr):
            self.push(frame, st, node, 'AttributeError', 'E01', 'attribute %s of %s' % (attr, o[1]))
            return []
        if self.used and o[0] == 'ref' and o[1] in ('s', 'x'):
            path = 'self' if o[1] == 's' else 'other'
            if attr == '__class__' and self.is_node_class(st.heap[o[1]]['__cls__']):
                return [(('sym', path + '.__class__', None), st)]
            v, ow = st.heap[o[1]]['__cls__'].lookup(attr)
            if attr not in st.heap[o[1]] and ow is not None and (v is None or isinstance(v, (bool, int, str, bytes))):
                return [(('sym', '%s.%s' % (path, attr), None), st)]
        elif self.used and o[0] == 'sym' and o[1] in ('self.__class__', 'other.__class__'):
            return [(('sym', '%s.%s' % (o[1], attr), None), st)]
        n = self.node(ip, st, o)
        if n is not None and attr != 'native':      # a property of one operand is the same function of the other
            v, ow = n[0].lookup(attr)
            if isinstance(v, PropertyInfo) and ow.module.name != 'core':
                return [(('sym', '%s.%s' % (n[1], attr), None), st)]
        return TypedHooks.getattr(self, ip, st, o, attr, node, frame)

    def getitem(self, ip, st, o, k, node, frame):
        if is_k(o) and not hasattr(o[2], '__getitem__') and o != NONE:
            self.push(frame, st, node, 'TypeError', 'E01', '%s is subscripted' % o[1])
            return []
        return TypedHooks.getitem(self, ip, st, o, k, node, frame)

    def implicit(self, ip, st, what, info, node, frame):
        if what in ('len', 'iter') and is_k(info[0]) and not hasattr(info[0][2], '__len__'):
            self.why[(id(node), 'TypeError')] = ('E01', '%s of %s' % (what, info[0][1]))
            return ('TypeError',)
        return TypedHooks.implicit(self, ip, st, what, info, node, frame)

    def term(self, ip, v, st, d=0, known=True):
        """A value as a term over the operands, without the identity of temporaries."""
        if known:
            v = ip.resolve(v, st)
        if d > 12:
            return 'deep'
        if is_k(v):
            return ('k', repr(v[2]))
        if v == self.void:
            return ('k', 'VOID')
        n = self.node(ip, st, v)
        if n is not None:
            return ('path', norm(n[1]))
        if v[0] == 'sym':
            return ('path', norm(v[1])) if re.match(r'(self|other)\b', v[1]) else ('sym', re.sub(r'\d+', '#', v[1]))
        if v[0] == 'ref' and v[1] in st.heap:
            ob = st.heap[v[1]]
            if v[1] in ('s', 'x'):
                return ('path', 'self' if v[1] == 's' else 'other')
            if not isinstance(ob.get('__cls__'), str):
                return ('object',)
            c = ob.get('__const__')
            if c is not None:
                return ('box', ob['__cls__'], tuple(sorted((self.term(ip, x, st, d + 1, known) for x in c), key=repr)))
            e = ob.get('__elt__')
            return ('box', ob['__cls__'], self.term(ip, e, st, d + 1, known) if e is not None else None)
        if v[0] == 'op':
            if v[1] == 'typed':
                return self.term(ip, v[2], st, d + 1, known)
            if v[1] in ('loop', 'elem', 'iter'):
                return ('loop',)
            if v[1] == 'deep':
                return ('deep', tuple(sorted((self.term(ip, x, st, d + 1, known) for x in v[2]), key=repr)))
            args = [self.term(ip, x, st, d + 1, known) if isinstance(x, tuple) and x and isinstance(x[0], str) else repr(x) for x in v[2:]]
            if v[1] in ('bitor', 'bitand', 'bitxor', 'eq', 'and', 'or'):
                args.sort(key=repr)
            if v[1] in ('lt', 'le') and len(args) == 2:
                args = list(ordered(*args))
            return ('op', v[1]) + tuple(args)
        if v[0] == 'tup':
            return ('tup',) + tuple(self.term(ip, x, st, d + 1, known) for x in v[1])
        if v[0] == 'cls':
            return ('cls', v[1].qual)
        if v[0] == 'sc':
            return ('sc', v[1].label)
        return (v[0],)


def norm(path):
    return re.sub(r'[*?]\d*', '*', re.sub(r'fieldname\*\d*', 'fieldname', path))


def swap(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'path':
            if re.match(r'self\b', t[1]):
                return ('path', 'other' + t[1][4:])
            if re.match(r'other\b', t[1]):
                return ('path', 'self' + t[1][5:])
            return t
        r = tuple(swap(x) for x in t)
        if t and t[0] == 'op' and t[1] in ('bitor', 'bitand', 'bitxor', 'eq', 'and', 'or'):
            r = r[:2] + tuple(sorted(r[2:], key=repr))
        elif t and t[0] in ('box', 'deep') and isinstance(r[-1], tuple) and r[-1] and isinstance(r[-1][0], tuple):
            r = r[:-1] + (tuple(sorted(r[-1], key=repr)),)
        return r
    return t


def leaves(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'path':
            out.add(t[1])
        else:
            for x in t:
                leaves(x, out)
    return out


def ordered(x, y):
    """a - b < 0 is a < b"""
    zero = [('k', '0'), ('op', 'builtin', ('k', repr('datetime.timedelta')), ('k', '0'))]
    if x[:2] == ('op', 'sub') and y in zero:
        return x[2], x[3]
    if y[:2] == ('op', 'sub') and x in zero:
        return y[3], y[2]
    return x, y


def loops(t):
    return isinstance(t, tuple) and (t == ('loop',) or any(loops(x) for x in t))


def vague(t):
    """mentions an object or container of which nothing is known"""
    return isinstance(t, tuple) and (t == ('object',) or len(t) == 3 and t[0] == 'box' and t[2] is None or any(vague(x) for x in t))


def text(t):
    if isinstance(t, tuple):
        if t and t[0] in ('path', 'k', 'sym', 'cls'):
            return str(t[1])
        if t and t[0] == 'op':
            return '%s(%s)' % (t[1], ', '.join(text(x) for x in t[2:]))
        return '(%s)' % ' '.join(text(x) for x in t)
    return str(t)


def memos(p, c):
    """Fields the library's own types set on themselves."""
    out = set()
    for b in c.mro:
        if b.module.name == 'core':
            continue
        for v in b.attrs.values():
            for g in ([v.fget, v.fset] if isinstance(v, PropertyInfo) else [v]):
                if isinstance(g, FuncInfo):
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self' \
                                and not isinstance(c.lookup(x.attr)[0], PropertyInfo):
                            out.add(x.attr)
    return out


def literals(h, ip, st):
    """What a path assumed, as {term: value}."""
    out = {}
    for k, v in st.facts.items():
        if not isinstance(k, tuple):
            continue
        if k[0] == 'op':
            out[h.term(ip, k, st, 0, False)] = v
        elif k[0] in ('val', 'dom') and len(k) == 2 and k[1][0] == 'sym' and re.match(r'(self|other)\b', k[1][1]):
            out[(k[0], ('path', norm(k[1][1])))] = v if k[0] == 'dom' else h.term(ip, v, st, 0, False)
    return out


def conflict(a, b):
    """Two sets of assumptions that cannot both hold."""
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if k[0] == 'dom':
            if not v & w:
                return True
        elif k[0] == 'val':
            x, y = (t if t[0] in ('k', 'cls') else None for t in (v, w))
            if x is not None and y is not None and x != y or (v == ('k', 'VOID')) != (w == ('k', 'VOID')):
                return True
        elif v != w:
            return True
    return False


def shallow(t):
    """mentions a value that is only known by what it was computed from"""
    return isinstance(t, tuple) and (t[:1] == ('deep',) or any(shallow(x) for x in t)) or t == 'deep'


def merge(t):
    """The term when both operands are the same value."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'path':
            return ('path', 'self' + t[1][5:]) if re.match(r'other\b', t[1]) else t
        return tuple(merge(x) for x in t)
    return t


def settled(t):
    """True or False when a term about one value has that outcome whatever the value is."""
    if t[0] != 'op':
        return None
    if t[1] in ('eq', 'is', 'le') and len(t) == 4 and t[2] == t[3]:
        return True
    if t[1] == 'lt' and len(t) == 4 and t[2] == t[3]:
        return False
    if t[1] in ('not', 'truth') and len(t) == 3:
        v = settled(t[2])
        return v if v is None or t[1] == 'truth' else not v
    return None


def alike(a):
    """Whether a set of assumptions can hold of a value and itself."""
    out = {}
    for k, v in a.items():
        if vague(k) or loops(k) or shallow(k):
            return False
        k = merge(k)
        if isinstance(v, tuple):
            v = merge(v)
        known = settled(k)
        if known is not None and known != v:
            return False
        if k in out and conflict({k: out[k]}, {k: v}):
            return False
        if k[0] == 'dom' and k in out:
            v = v & out[k]
        out[k] = v
    return True


def decisions(h, ip, outs):
    """[(assumptions, result, outcome)] for every path that returns."""
    res = []
    for o in outs:
        if o.kind not in ('return', 'fall') or o.val is None:
            continue
        v = ip.resolve(o.val, o.st)
        for t, st in ip.split(v, o.st):
            res.append((literals(h, ip, st), t, o))
    return res


def run(ctx, c, f, other, hooks, used=False):
    st = initial(c)
    if isinstance(other, ClassInfo):
        st.heap['x'] = {'__cls__': other, '__state__': 'fresh'}
        other = ('ref', 'x')
    hooks.used = used
    if used:
        for m in memos(ctx.prog, c):
            st.setf('s', m, ('sym', 'self.' + m, None))
            st.setf('x', m, ('sym', 'other.' + m, None))
    args = [('ref', 's')] + ([other] if other is not None else [])
    for budget, states in ((200000, 200), (300000, 16)):
        hooks.max_states = states
        ip = Cmp(ctx.prog, hooks, budget=budget)
        try:
            return ip, ip.run(f, args, st.fork())
        except TooComplex:
            continue
    return None, None


def others(p, c):
    """(description, value) of unrelated operands"""
    out = [('None', NONE), ('a number', K(5)), ('text', K('text')), ('bytes', K(b'bytes')), ('a tuple', ('tup', (K(1),)))]
    core = p.modules['core'].env
    for n in ('Integer', 'OctetString', 'UTF8String', 'Sequence', 'SetOf', 'Choice', 'Any', 'Null'):
        k = core.get(n)
        if isinstance(k, ClassInfo) and not c.issub(k) and not k.issub(c):
            out.append(('a value of type %s' % n, k))
    x = p.modules.get('x509')
    for n in ('Certificate', 'GeneralName', 'Name', 'DNSName'):
        k = x.env.get(n) if x is not None else None
        if isinstance(k, ClassInfo) and not c.issub(k) and not k.issub(c):
            out.append(('a value of type x509.%s' % n, k))
    return out


def definers(p, name):
    """(class, function) for every definition of a method in the package, on types of values"""
    out = []
    util = p.modules.get('util')
    times = sorted((v for v in util.env.values() if isinstance(v, ClassInfo) and v.module is util), key=lambda v: v.name) if util is not None else []
    asn1 = p.asn1_classes()
    for c in asn1 + times:
        for b in c.mro:
            v = b.attrs.get(name)
            if isinstance(v, PropertyInfo):
                v = v.fget
            if isinstance(v, FuncInfo):
                if b is c or b not in asn1:
                    out.append((c, v))
                break
    seen, res = set(), []
    for c, v in out:
        if v not in seen:
            seen.add(v)
            res.append((c, v))
    return res


def boolean(h, ip, v, st):
    """True, False or None (not known)"""
    v = ip.resolve(v, st)
    if is_k(v):
        return isinstance(v[2], bool)
    t = ip.types(v, st)
    if t == frozenset(['bool']):
        return True
    if v[0] == 'op' and v[1] in ('eq', 'in', 'is', 'lt', 'le', 'not', 'isinstance', 'issubclass', 'truth', 'hasattr'):
        return True
    if v[0] == 'ext' and v[1].endswith('NotImplemented') or v[0] == 'sym' and 'NotImplemented' in str(v[1]):
        return True
    if v[0] in ('tup', 'sc', 'cls', 'fn') or h.node(ip, st, v) is not None or t and not t & frozenset(['bool']):
        return False
    return None


def total(part, c, f, where):
    """__eq__ or __ne__ of operands of unrelated types"""
    p = part.prog
    for what, o in others(p, c):
        h = Hooks(p)
        h.outer = f
        ip, outs = run(part, c, f, o, h)
        if outs is None:
            part.undec('%s with %s: too many paths' % (f.qual, what))
            continue
        part.count('kinds of operands')
        for x in outs:
            if x.kind == 'raise':
                if x.val == 'ValueError' and isinstance(x.node, ast.Raise):
                    continue
                w = owner(p, x.node) or f
                part.report('%s raises %s' % (f.qual, x.val), '%s:%s' % (w.module.relpath, getattr(x.node, 'lineno', '?')),
                            '%s raises %s when compared with %s' % (f.qual, x.val, what) + (' (in %s)' % w.qual if w is not f else ''))
            elif x.kind in ('return', 'fall') and boolean(h, ip, x.val if x.val is not None else NONE, x.st) is False:
                part.report('%s result' % f.qual, where, '%s does not return a boolean when compared with %s' % (f.qual, what))


ELEMENT = frozenset(['element'])


class Listed(Fold):
    """Collections with a given list of elements, of which every property is a text of its own."""
    def concrete_iter(self, it, st):
        if it[0] == 'ref' and it[1] in self.h.lists:
            return [('sym', e, ELEMENT) for e in self.h.lists[it[1]]]
        r = Fold.concrete_iter(self, it, st)
        if r is not None and it[0] == 'ref' and it[1] in st.heap and st.heap[it[1]].get('__cls__') in ('set', 'frozenset') and self.h.flip:
            return list(r)[::-1]
        return r


class ListedHooks(ClassState):
    unroll = 60
    max_states = 200

    def __init__(self, prog, lists, flip=False):
        ClassState.__init__(self)
        self.p, self.lists, self.flip = prog, lists, flip

    def element(self, v):
        return v[0] == 'sym' and len(v) > 2 and v[2] == ELEMENT

    def getattr(self, ip, st, o, attr, node, frame):
        if self.element(o) and not attr.startswith('__'):
            return [(K('%s.%s' % (o[1], attr)), st)]
        return ClassState.getattr(self, ip, st, o, attr, node, frame)

    def getitem(self, ip, st, o, k, node, frame):
        if self.element(o) and is_k(k):
            return [(('sym', '%s/%s' % (o[1], k[2]), ELEMENT), st)]
        if o[0] == 'ref' and o[1] in self.lists and is_k(k) and isinstance(k[2], int) and -len(self.lists[o[1]]) <= k[2] < len(self.lists[o[1]]):
            return [(('sym', self.lists[o[1]][k[2]], ELEMENT), st)]
        return None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[1].module.name == 'core' and fn[2] is not None and fn[2][0] == 'ref' and fn[2][1] in self.lists:
            if fn[1].name == '__len__':
                return [(K(len(self.lists[fn[2][1]])), st)]
            if fn[1].name == '__iter__':
                return [(ip.new_container('list', tuple(('sym', e, ELEMENT) for e in self.lists[fn[2][1]]), st, node), st)]
            if fn[1].name == '__getitem__':
                return self.getitem(ip, st, fn[2], args[0], node, frame)
        if fn[0] == 'ext' and fn[1].split('.')[-1] == 'len' and args and args[0][0] == 'ref' and args[0][1] in self.lists:
            return [(K(len(self.lists[args[0][1]])), st)]
        return ClassState.call(self, ip, st, fn, args, kwargs, node, frame)


def listed(part, c, f, mine, theirs=None, flip=False):
    """The constant a method gives for collections of these elements, or None."""
    h = ListedHooks(part.prog, {'s': mine, 'x': theirs or []}, flip)
    st = initial(c)
    st.heap['x'] = {'__cls__': c, '__state__': 'fresh'}
    ip = Listed(part.prog, h, budget=60000)
    try:
        outs = ip.run(f, [('ref', 's')] + ([('ref', 'x')] if theirs is not None else []), st)
    except TooComplex:
        return None
    res = set()
    for o in outs:
        ok, v = ip.const(o.val, o.st) if o.kind == 'return' and o.val is not None else (False, None)
        if not ok or not isinstance(v, (str, bytes, int)):
            return None
        res.add(v)
    return res.pop() if len(res) == 1 else None


def order_of_hash(ctx):
    """Collections that are equal when their elements come in another order have the same hash."""
    p = ctx.prog
    for name in ('hashable', '__hash__'):
        for c, f in definers(p, name):
            if p.cls('core.SequenceOf') not in c.mro:
                continue
            ef = c.lookup('__eq__')[0]
            where = '%s:%s' % (f.module.relpath, f.node.lineno)
            for a, b in ((['a', 'b'], ['b', 'a']), (['a', 'b', 'c'], ['c', 'a', 'b'])):
                ctx.count('orders of elements')
                same = listed(ctx, c, ef, a, b) if isinstance(ef, FuncInfo) and ef.module.name != 'core' else None
                x, y, z = listed(ctx, c, f, a), listed(ctx, c, f, b), listed(ctx, c, f, a, flip=True)
                if isinstance(ef, FuncInfo) and ef.module.name != 'core':
                    if listed(ctx, c, ef, a, a) is False:
                        ctx.report('%s reflexive' % ef.qual, '%s:%s' % (ef.module.relpath, ef.node.lineno), '%s is False for equal lists of elements' % ef.qual)
                    for b2 in (a[:-1], a[1:], a + ['z'], a[:-1] + ['z'], []):
                        one, two = listed(ctx, c, ef, a, b2), listed(ctx, c, ef, b2, a)
                        ctx.count('lists compared both ways')
                        if None not in (one, two) and one != two:
                            ctx.report('%s asymmetric' % ef.qual, '%s:%s' % (ef.module.relpath, ef.node.lineno),
                                       '%s of %d and %d elements depends on which is asked' % (ef.qual, len(a), len(b2)))
                if same is False and p.cls('core.SetOf') in c.mro:
                    ctx.report('%s ordered' % ef.qual, '%s:%s' % (ef.module.relpath, ef.node.lineno), '%s depends on the order of the elements of a set' % ef.qual)
                if None in (x, y, z):
                    ctx.undec('%s: not decided for a list of elements' % f.qual)
                elif x != z:
                    ctx.report('%s set' % f.qual, where, '%s depends on the order in which a set is traversed' % f.qual)
                elif x != y and (same or same is None and p.cls('core.SetOf') in c.mro):
                    ctx.report('%s order' % f.qual, where, '%s depends on the order of the elements, on which equality does not' % f.qual)


def check(ctx):
    p = ctx.prog
    eqs = definers(p, '__eq__')
    compared = {}

    def equality(part, item):
        c, f = item
        part.count('equality definitions')
        where = '%s:%s' % (f.module.relpath, f.node.lineno)
        total(part, c, f, where)
        for used in (True, False):
            h = Hooks(p)
            h.record, h.outer = {}, f
            ip, outs = run(part, c, f, c, h, used=used)
            if outs is not None:
                break
        else:
            part.undec('%s: too many paths' % f.qual)
            return
        for x in outs:
            if x.kind in ('return', 'fall') and boolean(h, ip, x.val if x.val is not None else NONE, x.st) is False:
                part.report('%s result' % f.qual, where, '%s does not return a boolean' % f.qual)
        rec, joined = h.record, ip.joined
        if outs and not any(x.kind in ('return', 'fall') for x in outs):
            part.report('%s never' % f.qual, where, '%s raises %s on every path, for values of its own type' % (f.qual, outs[0].val))
        part.count('paths', len(outs))
        if not h.loops and not joined:
            ds = decisions(h, ip, outs)
            for a, r, _ in ds:
                part.count('decisions')
                if r is False and alike(a):
                    part.report('%s reflexive' % f.qual, where, '%s can be False for a value and itself (decided by %s)' % (
                        f.qual, '; '.join('%s is %s' % (text(k), v) for k, v in sorted(a.items(), key=repr))[:200]))
            for a, r, _ in ds:
                for b, q, o in ds:
                    if q != r and not conflict(a, dict((swap(k), swap(v)) for k, v in b.items())):
                        only = [text(k) for k in sorted(a, key=repr) if k not in set(swap(x) for x in a)]
                        part.report('%s asymmetric' % f.qual, where, '%s can be %s while the comparison the other way round is %s (decided by %s)' % (
                            f.qual, r, q, '; '.join(only)[:160]))
        keys = set((k, a, b) for k, a, b in rec) | set((k, b, a) for k, a, b in rec if k not in ('in', 'order'))
        for (k, a, b), (fi, node) in sorted(rec.items(), key=lambda x: repr(x[0])):
            ls = leaves((a, b), set())
            if not ls or vague((a, b)) or loops((a, b)) and len(set(re.split(r'[/.]', x)[0] for x in ls)) == 1:
                continue
            part.count('comparisons')
            part.sample('comparisons', '%s: %s %s %s' % (f.qual, text(a), k, text(b)))
            if (k, swap(a), swap(b)) not in keys and joined:
                part.undec('%s: paths were joined, symmetry not decided' % f.qual)
            elif (k, swap(a), swap(b)) not in keys:
                part.report('%s one-sided' % f.qual, '%s:%s' % (fi.module.relpath, node.lineno),
                            '%s compares %s with %s, but never %s with %s' % (f.qual, text(a), text(b), text(swap(a)), text(swap(b))))
    ctx.spread(eqs, equality)

    for c, f in definers(p, '__ne__'):
        ctx.count('inequality definitions')
        total(ctx, c, f, '%s:%s' % (f.module.relpath, f.node.lineno))
        h = Hooks(p)
        h.opaque_eq = True
        ip, outs = run(ctx, c, f, c, h)
        if outs is None:
            ctx.undec('%s: too many paths' % f.qual)
            continue
        asked = [x for x in outs if x.kind in ('return', 'fall')]
        if asked and not any(h.EQ in deps(x.val or NONE) or ip.truth(h.EQ, x.st) is not None for x in asked):
            ef = c.lookup('__eq__')[0]
            g = Hooks(p)
            g.record, g.outer = {}, ef
            _, o1 = run(ctx, c, ef, c, g)
            h = Hooks(p)
            h.record, h.outer = {}, f
            _, o2 = run(ctx, c, f, c, h)
            for k, a, b in sorted(h.record, key=repr):
                if o1 is not None and o2 is not None and leaves((a, b), set()) - leaves(tuple(g.record), set()):
                    ctx.report('%s own' % f.qual, '%s:%s' % (f.module.relpath, f.node.lineno), '%s compares %s with %s, which %s does not' % (
                        f.qual, text(a), text(b), ef.qual))
        for x in outs:
            if x.kind == 'raise':
                if x.val == 'RecursionError':
                    ctx.report('%s recursion' % f.qual, '%s:%s' % (f.module.relpath, f.node.lineno), '%s calls itself' % f.qual)
                continue
            v = ip.resolve(x.val, x.st) if x.val is not None else NONE
            eq = ip.truth(h.EQ, x.st)
            bad = v in (h.EQ, op('truth', h.EQ)) or is_k(v) and (not isinstance(v[2], bool) or eq is not None and v[2] == eq)
            if bad:
                ctx.report('%s negation' % f.qual, '%s:%s' % (f.module.relpath, f.node.lineno), '%s is not the negation of __eq__' % f.qual)
            elif not (v in (op('not', h.EQ), op('not', op('truth', h.EQ))) or is_k(v) and eq is not None):
                ctx.undec('%s: not decided as a negation of __eq__' % f.qual)

    for name in ('hashable', '__hash__'):
        for c, f in definers(p, name):
            ef, ow = c.lookup('__eq__')
            if not isinstance(ef, FuncInfo):
                continue
            ctx.count('hash definitions')
            h = Hooks(p)
            h.record, h.outer = {}, ef
            ip, outs = run(ctx, c, ef, c, h)
            g = Hooks(p)
            ip2, outs2 = run(ctx, c, f, None, g)
            if outs is None or outs2 is None:
                ctx.undec('%s: too many paths' % f.qual)
                continue
            eq = leaves(tuple(h.record), set())
            eq = set('self' + x[5:] if x.startswith('other') else x for x in eq)
            got = set()
            for x in outs2:
                if x.kind == 'return' and x.val is not None:
                    leaves(g.term(ip2, x.val, x.st), got)
            for leaf in sorted(got):
                if leaf in eq or leaf.endswith('.hashable') and (leaf[:-9] in eq):
                    continue
                ctx.report('%s hashes %s' % (f.qual, leaf), '%s:%s' % (f.module.relpath, f.node.lineno),
                           '%s depends on %s, which %s does not compare' % (f.qual, leaf, ef.qual))
    order_of_hash(ctx)
    ctx.need('equality definitions', 5)
    ctx.need('comparisons', 8)
