"""Path-sensitive abstract interpreter over the program model.

Abstract values are hashable tuples:
  ('k', type-name, v)        constant
  ('tup', items)             tuple of abstract values
  ('cls', ClassInfo) ('fn', FuncInfo, bound) ('mod', ModuleInfo) ('ext', name) ('extinst', name)
  ('sc', Static)             container constant of a module or class body
  ('ref', oid)               abstract heap object (self, other, freshly built ...)
  ('sym', name, typ)         opaque input (parameter, field on entry, ...)
  ('op', name, args...)      value-numbered result of an operation
States are joined when equal; loops run to a fixpoint with widening of the
locals they assign; calls to package functions are inlined (bounded), so the
verdict does not depend on how code is divided into helpers.
"""
import ast
import operator as O

from .model import (ClassInfo, FuncInfo, PropertyInfo, ModuleInfo, ExtRef, ExtCall, InstStub, Unk, AnalysisBroken,
                    handler_names, walk_scope, Scope, ClassEnv)

NONE = ('k', 'NoneType', None)
TRUE = ('k', 'bool', True)
FALSE = ('k', 'bool', False)


def K(v):
    return ('k', type(v).__name__, v)


def is_k(v):
    return v[0] == 'k'


def is_const(v):
    """A value that can serve as a known dictionary key."""
    return v[0] in ('k', 'cls') or (v[0] == 'tup' and all(is_const(x) for x in v[1]))


def plain_const(v):
    """The Python object of a constant made of constants."""
    if v[0] == 'tup':
        return tuple(plain_const(x) for x in v[1])
    return v[2] if v[0] == 'k' else v[1]


def tup(*items):
    return ('tup', tuple(items))


MAXDEPTH = 9


def depth(v, lim=MAXDEPTH + 2):
    if lim <= 0:
        return 1
    if v[0] == 'op':
        return 1 + max([depth(a, lim - 1) for a in v[2:] if isinstance(a, tuple) and a and isinstance(a[0], str)] or [0])
    if v[0] == 'tup':
        return 1 + max([depth(a, lim - 1) for a in v[1]] or [0])
    return 0


def deps(v, out=None):
    """Symbols/refs a value is built from."""
    if out is None:
        out = set()
    if not isinstance(v, tuple) or not v:
        return out
    t = v[0]
    if t in ('sym', 'ref', 'sc', 'ext'):
        out.add(v)
    elif t == 'op':
        if v[1] == 'deep':
            out |= set(v[2])
        else:
            for a in v[2:]:
                if isinstance(a, tuple):
                    deps(a, out)
    elif t == 'tup':
        for a in v[1]:
            deps(a, out)
    elif t == 'fn' and v[2] is not None:
        deps(v[2], out)
    return out


def op(name, *args):
    v = ('op', name) + args
    if depth(v) > MAXDEPTH:
        return ('op', 'deep', frozenset(deps(v)), name)
    return v


class Static(object):
    """A container constant with identity and a label."""
    __slots__ = ('obj', 'label')
    reg = {}

    def __init__(self, obj, label):
        self.obj, self.label = obj, label

    @classmethod
    def of(cls, obj, label='const'):
        s = cls.reg.get(id(obj))
        if s is None:
            s = cls.reg[id(obj)] = Static(obj, label)
        return s

    def __repr__(self):
        return 'Static(%s)' % self.label


def wrap(v, label='const'):
    """Model constant -> abstract value."""
    if v is None or isinstance(v, (bool, int, str, bytes, float)):
        return K(v)
    if isinstance(v, ClassInfo):
        return ('cls', v)
    if isinstance(v, FuncInfo):
        return ('fn', v, None)
    if isinstance(v, ModuleInfo):
        return ('mod', v)
    if isinstance(v, ExtRef):
        return ('ext', v.name)
    if isinstance(v, tuple):
        return ('tup', tuple(wrap(x, label) for x in v))
    if isinstance(v, (dict, list, set, frozenset)):
        return ('sc', Static.of(v, label))
    if isinstance(v, InstStub):
        return ('const_inst', v)
    if isinstance(v, ExtCall):
        return ('sym', 'ext:%s:%s' % (v.fn, id(v)), frozenset(['ext:' + v.fn]))
    if v in _BUILTIN_NAMES:
        return ('ext', 'builtins.' + _BUILTIN_NAMES[v])
    return ('sym', 'unk:' + label, None)


_BUILTIN_NAMES = {}
for _n in ('dict set list tuple frozenset len sorted zip enumerate reversed max min int str bytes bool range sum abs any '
           'all repr ord chr format bytearray map filter iter next hash round float divmod pow hex object').split():
    _BUILTIN_NAMES[getattr(__builtins__, _n) if not isinstance(__builtins__, dict) else __builtins__[_n]] = _n


_TYPE_NAMES = frozenset('dict set list tuple frozenset int str bytes bool range bytearray float object type'.split())


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'mon', 'nalloc')

    def __init__(self, env=None, heap=None, facts=None, mon=None, nalloc=0):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon
        self.nalloc = nalloc

    def fork(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.mon, self.nalloc)

    def key(self):
        return (frozenset(self.env.items()), frozenset((k, frozenset(v.items())) for k, v in self.heap.items()),
                frozenset(self.facts.items()), self.mon)

    # heap helpers: heap[oid] = dict (treated as immutable)
    def getf(self, oid, f, d=None):
        return self.heap[oid].get(f, d)

    def setf(self, oid, f, v):
        o = dict(self.heap[oid])
        o[f] = v
        self.heap[oid] = o

    def alloc(self, **fields):
        oid = 'o%d' % self.nalloc
        self.nalloc += 1
        self.heap[oid] = dict(fields)
        return ('ref', oid)


EXC_PARENTS = {
    'UnicodeEncodeError': 'UnicodeError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeError': 'ValueError',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'AttributeError': 'Exception', 'OverflowError': 'ArithmeticError',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError', 'OSError': 'Exception', 'StopIteration': 'Exception',
    'Exception': 'BaseException', 'AssertionError': 'Exception', 'EnvironmentError': 'Exception', 'ImportError': 'Exception',
    'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'error': 'OSError',
}


def exc_ancestors(n):
    out = [n]
    while n in EXC_PARENTS:
        n = EXC_PARENTS[n]
        out.append(n)
    return out


class Outcome(object):
    __slots__ = ('kind', 'val', 'st', 'node')

    def __init__(self, kind, val, st, node=None):
        self.kind, self.val, self.st, self.node = kind, val, st, node

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.val)


class Frame(object):
    def __init__(self, fi, module, depth, parent=None, closure=None):
        self.fi, self.module, self.depth, self.parent = fi, module, depth, parent
        self.raises = []
        self.fid = 0
        self.closure = closure
        self.node = None
        self.assigned = None

    def stack(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


class Hooks(object):
    """Rule-specific behaviour; every method may be overridden."""
    inline_depth = 12
    max_recursion = 2
    max_states = 96
    unroll = 16
    max_rounds = 6
    arith = False       # keep facts about loop values, one fresh symbol per loop execution

    def on_head(self, ip, st, names, entry, node, frame):
        """Loop head after widening: may add invariant facts to st."""

    def on_backedge(self, ip, head, st, names, entry, node, frame):
        """End of one iteration: head state before it, st after it."""

    def on_store(self, ip, st, obj, attr, val, node, frame):
        """After obj.attr = val (obj is an abstract value)."""

    def on_substore(self, ip, st, cont, key, val, node, frame):
        pass

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        pass

    def on_delete(self, ip, st, cont, key, node, frame):
        pass

    def call(self, ip, st, fn, args, kwargs, node, frame):
        """Return None (default handling) or list of (value, state)."""
        return None

    def inline(self, ip, fi, bound, frame):
        return True

    def getattr(self, ip, st, obj, attr, node, frame):
        return None

    def getitem(self, ip, st, obj, key, node, frame):
        return None

    def implicit(self, ip, st, what, info, node, frame):
        """Exception names that evaluating this operation may raise."""
        return ()

    def on_raise(self, ip, st, exc, node, frame):
        pass

    def on_return(self, ip, st, fi, val, node, frame):
        pass

    def on_enter(self, ip, st, fi, args, node, frame):
        pass

    def entry_field(self, ip, st, oid, attr, frame):
        """Value of a field never written, on an object in arbitrary state."""
        return None

    def on_loop(self, ip, node, frame):
        pass

    def on_branch(self, ip, st, node, val, frame):
        pass


class TooComplex(Exception):
    pass


class Interp(object):
    def __init__(self, prog, hooks, budget=400000):
        self.p = prog
        self.h = hooks
        self.budget = budget
        self.steps = 0
        self.fcount = 0
        self.inlined = set()
        self.opaque = set()
        self.joined = False     # paths were merged

    # ---------------------------------------------------------------- util
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise TooComplex()

    def dedupe(self, pairs):
        seen = {}
        for v, st in pairs:
            k = (v, st.key())
            if k not in seen:
                seen[k] = (v, st)
        return list(seen.values())

    def limit(self, outs, frame):
        """Dedupe outcomes; above the cap, drop facts and widen locals to merge."""
        seen = {}
        for o in outs:
            k = (o.kind, o.val, o.st.key())
            if k not in seen:
                seen[k] = o
        outs = list(seen.values())
        if len(outs) <= self.h.max_states:
            return outs
        groups = {}
        for o in outs:
            k = (o.kind, o.val if o.kind != 'fall' else None, o.st.mon, frozenset((k, frozenset(v.items())) for k, v in o.st.heap.items()))
            groups.setdefault(k, []).append(o)
        res = []
        for g in groups.values():
            res.append(self.merge(g))
        return res

    def merge(self, g):
        o = g[0]
        if len(g) == 1:
            return o
        self.joined = True
        st = o.st.fork()
        env = {}
        for name in set.intersection(*[set(x.st.env) for x in g]):
            vs = set(x.st.env[name] for x in g)
            env[name] = vs.pop() if len(vs) == 1 else self.join_vals([x.st.env[name] for x in g])
        st.env = env
        facts = dict(o.st.facts)
        for x in g[1:]:
            for k in list(facts):
                if x.st.facts.get(k, _MISS) != facts[k]:
                    del facts[k]
        st.facts = facts
        st.nalloc = max(x.st.nalloc for x in g)
        return Outcome(o.kind, o.val, st, o.node)

    def join_vals(self, vs):
        d = set()
        ts = set()
        for v in vs:
            d |= deps(v)
            t = self.types(v, None)
            if t is None:
                ts = None
                break
            ts |= t
        for v in vs:
            d |= deps(v)
        return ('op', 'phi', frozenset(vs) if len(set(vs)) <= 6 else frozenset(d), frozenset(ts) if ts is not None else None)

    # ---------------------------------------------------------------- types
    def types(self, v, st=None):
        """frozenset of type names or None when unknown."""
        t = v[0]
        if t == 'k':
            return frozenset([v[1]])
        if t == 'tup':
            return frozenset(['tuple'])
        if t == 'cls':
            return frozenset(['type'])
        if t == 'fn':
            return frozenset(['function'])
        if t == 'mod':
            return frozenset(['module'])
        if t == 'sc':
            return frozenset([type(v[1].obj).__name__])
        if t == 'const_inst':
            return frozenset([v[1].cls])
        if st is not None and st.facts:
            f = st.facts.get(('type', v))
            if f is not None:
                return f
        if t == 'ref':
            if st is not None and v[1] in st.heap:
                c = st.heap[v[1]].get('__cls__')
                if c is not None:
                    return frozenset([c])
            return None
        if t == 'sym':
            return v[2]
        if t == 'op':
            n = v[1]
            if n == 'phi':
                return v[3]
            if n == 'typed':
                return v[3]
            if n in ('is', 'eq', 'lt', 'le', 'in', 'not', 'isinstance', 'issubclass', 'truth', 'hasattr'):
                return frozenset(['bool'])
            if n in ('len', 'ord', 'bitand', 'bitor', 'rshift', 'lshift', 'hash', 'id'):
                return frozenset(['int'])
            if n in ('repr', 'hex', 'chr', 'mod_str'):
                return frozenset(['str'])
            if n in ('sorted', 'listcomp'):
                return frozenset(['list'])
            if n in ('setcomp',):
                return frozenset(['set'])
            if n == 'slice':
                return self.types(v[2], st)
            if n == 'add':
                a, b = self.types(v[2], st), self.types(v[3], st)
                if a is not None and len(a) == 1 and (a == b or a & frozenset(['bytes', 'str', 'list', 'tuple'])):
                    return a
                if b is not None and len(b) == 1 and b & frozenset(['bytes', 'str', 'list', 'tuple']):
                    return b
                if a is not None and b is not None and a <= frozenset(['int', 'bool']) and b <= frozenset(['int', 'bool']):
                    return frozenset(['int'])
                return None
            if n in ('sub', 'mul', 'floordiv'):
                a, b = self.types(v[2], st), self.types(v[3], st)
                if a is not None and b is not None and a <= frozenset(['int', 'bool']) and b <= frozenset(['int', 'bool']):
                    return frozenset(['int'])
                return None
            if n == 'index' and self.types(v[2], st) == frozenset(['bytes']):
                return frozenset(['int'])
            if n == 'meth':
                return _METHOD_TYPES.get(v[3][2] if v[3][0] == 'k' else None)
            if n == 'builtin':
                return _BUILTIN_TYPES.get(v[2][2])
            if n == 'packcall':
                return _PACK_TYPES.get(v[2])
        return None

    def not_none(self, v, st):
        if v == NONE:
            return False
        f = st.facts.get(('op', 'is', v, NONE))
        if f is False:
            return True
        ts = self.types(v, st)
        if ts is not None and 'NoneType' not in ts:
            return True
        if st.facts.get(('op', 'truth', v)) is True:
            return True
        return False

    # ---------------------------------------------------------------- truth
    def resolve(self, v, st):
        """Follow `value == constant` facts."""
        if v[0] in ('sym', 'op'):
            r = st.facts.get(('val', v))
            if r is not None:
                return r
        return v

    def truth(self, v, st):
        """True/False/None."""
        v = self.resolve(v, st)
        t = v[0]
        if t == 'k':
            return bool(v[2])
        if t == 'tup':
            return bool(v[1])
        if t in ('cls', 'fn', 'mod'):
            return True
        if t == 'sc':
            return bool(v[1].obj)
        if t == 'op' and v[1] == 'not':
            r = self.truth(v[2], st)
            return None if r is None else not r
        if t == 'op' and v[1] == 'truth':
            r = self.truth(v[2], st)
            if r is not None:
                return r
        r = self.decide(v, st)
        if r is not None:
            return r
        f = st.facts.get(('op', 'truth', v))
        if f is not None:
            return f
        ts = self.types(v, st)
        if ts is not None and ts == frozenset(['NoneType']):
            return False
        if st.facts.get(('op', 'is', v, NONE)) is True:
            return False
        if t == 'ref':
            c = st.heap.get(v[1], {}).get('__cls__')
            if st.heap.get(v[1], {}).get('__keys__'):
                return True
            if isinstance(c, ClassInfo) and not c.has('__len__') and not c.has('__bool__') and not c.has('__nonzero__'):
                return True
            n = st.heap.get(v[1], {}).get('__len__')
            if n is not None and is_k(n):
                return bool(n[2])
        return None

    def type_name(self, v, st):
        """The built-in type an expression denotes: tuple, or x.__class__ of a tuple."""
        if v[0] == 'ext' and v[1].startswith('builtins.') and v[1][9:] in _TYPE_NAMES:
            return v[1][9:]
        if v[0] == 'op' and v[1] == 'attr' and v[3] == K('__class__'):
            ts = self.types(v[2], st)
            if ts is not None and len(ts) == 1 and isinstance(list(ts)[0], str) and not list(ts)[0].startswith('ext:'):
                return list(ts)[0]
        return None

    def decide(self, c, st):
        """Decide a boolean abstract value."""
        f = st.facts.get(c)
        if f is not None:
            return f
        if c[0] != 'op':
            return None
        n = c[1]
        if n in ('is', 'eq'):
            x, y = self.type_name(c[2], st), self.type_name(c[3], st)
            if x is not None and y is not None:
                return x == y
        if n == 'is':
            a, b = self.resolve(c[2], st), self.resolve(c[3], st)
            if a == b and a[0] in ('k', 'cls', 'ref', 'fn'):
                return True
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                if x == NONE:
                    return True
                if self.not_none(x, st):
                    return False
                ts = self.types(x, st)
                if ts == frozenset(['NoneType']):
                    return True
                return None
            if is_k(a) and is_k(b):
                return a == b
            if a[0] in ('cls', 'ref', 'k') and b[0] in ('cls', 'ref', 'k'):
                return a == b
            if a == b:
                return True
            return None
        if n == 'eq':
            a, b = self.resolve(c[2], st), self.resolve(c[3], st)
            if is_k(a) and is_k(b):
                return a[2] == b[2]
            if a[0] == 'cls' and b[0] == 'cls':
                return a == b
            if a[0] == 'tup' and b[0] == 'tup':
                if len(a[1]) != len(b[1]):
                    return False
                rs = [self.decide(op('eq', x, y), st) for x, y in zip(a[1], b[1])]
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
                return None
            if a[0] == 'tup' and not any(self._open(x) for x in a[1]) and b[0] == 'sc':
                return False
            if a == b and (a[0] == 'cls' or self.plain(a, st)):
                return True
            for x, y in ((a, b), (b, a)):
                if is_k(y):
                    if y == NONE and self.not_none(x, st):
                        ts = self.types(x, st)
                        if ts is not None and all(isinstance(q, str) for q in ts):
                            return False
                    ts = self.types(x, st)
                    if ts is not None and all(isinstance(q, str) and not q.startswith('ext:') for q in ts):
                        num = frozenset(['int', 'bool', 'float'])
                        if y[1] in num:
                            if not ts & num:
                                return False
                        elif y[1] not in ts:
                            return False
                    # x == other constant already known
                    for k2, vv in st.facts.items():
                        pass
            return None
        if n == 'isinstance':
            return self.isinst(c[2], c[3], st)
        if n == 'issubclass':
            if c[2][0] == 'cls' and c[3][0] == 'cls':
                return c[2][1].issub(c[3][1])
            return None
        if n == 'in':
            a, b = self.resolve(c[2], st), self.resolve(c[3], st)
            if is_k(a):
                if b[0] == 'sc':
                    try:
                        return a[2] in b[1].obj
                    except TypeError:
                        return None
                if b[0] == 'tup' and all(is_k(x) for x in b[1]):
                    return any(a == x for x in b[1])
                if is_k(b) and b[1] in ('str', 'bytes') and a[1] == b[1]:
                    return a[2] in b[2]
                if b[0] == 'op' and b[1] == 'builtin' and b[2] == K('dir') and len(b) == 4 and a[1] == 'str':
                    cls = self.cls_of(b[3], st)
                    if cls is not None and (cls.has(a[2]) or b[3][0] == 'ref' and a[2] in st.heap[b[3][1]]):
                        return True
                    return False if cls is not None and not self.instance_has(cls, a[2]) else None
                if b[0] == 'ref':
                    el = st.heap.get(b[1], {}).get('__const__')
                    if el is not None and is_k(a) and all(is_k(x) for x in el):
                        return a in el
                    keys = st.heap.get(b[1], {}).get('__keys__')
                    if keys is not None:
                        return a in keys
            elif is_const(a):
                if b[0] == 'sc':
                    try:
                        return plain_const(a) in b[1].obj
                    except TypeError:
                        return None
                if b[0] == 'ref':
                    keys = st.heap.get(b[1], {}).get('__keys__')
                    if keys is not None:
                        return a in keys
            if a[0] == 'cls' and b[0] == 'tup' and all(x[0] == 'cls' for x in b[1]):
                return a in b[1]
            if b[0] == 'sc' and not b[1].obj:
                return False
            return None
        if n in ('lt', 'le'):
            a, b = self.resolve(c[2], st), self.resolve(c[3], st)
            if is_k(a) and is_k(b):
                try:
                    return (a[2] < b[2]) if n == 'lt' else (a[2] <= b[2])
                except TypeError:
                    return None
            return None
        return None

    _PURE = frozenset(['len', 'add', 'sub', 'mul', 'slice', 'bitand', 'bitor', 'lshift', 'rshift', 'typed'])

    def plain(self, v, st):
        """A number or string computed from fixed values without calling anything."""
        if is_k(v):
            return True
        if v[0] == 'sym':
            ts = v[2]
            return ts is not None and ts <= frozenset(['int', 'bool', 'str', 'bytes'])
        if v[0] == 'op' and v[1] == 'len':
            return v[2][0] == 'sym' and v[2][2] is not None and v[2][2] <= frozenset(['str', 'bytes']) or v[2][0] == 'op' and self.plain(v[2], st)
        if v[0] == 'op' and v[1] in self._PURE:
            return all(self.plain(x, st) for x in v[2:] if isinstance(x, tuple) and x)
        return False

    def _open(self, v):
        return v[0] in ('sym', 'op')

    def isinst(self, v, t, st):
        v = self.resolve(v, st)
        ts = self.types(v, st)
        names = self.type_names(t)
        if names is None:
            return None
        if ts is None:
            return None
        res = set()
        for x in ts:
            res.add(self.sub_type(x, names))
        if res == set([True]):
            return True
        if res == set([False]):
            return False
        return None

    def sub_type(self, x, names):
        for n in names:
            if isinstance(x, ClassInfo):
                if isinstance(n, ClassInfo):
                    if x.issub(n):
                        return True
                elif n == 'object' or ('ext:' + str(n)) in ['ext:' + b for b in x.ext_bases()] or n in [b.split('.')[-1] for b in x.ext_bases()]:
                    return True
            else:
                if x == n or n == 'object':
                    return True
                if x == 'bool' and n == 'int':
                    return True
                if isinstance(x, str) and x.startswith('ext:'):
                    if isinstance(n, str) and x.split('.')[-1] == n.split('.')[-1]:
                        return True
                    return None
                if x == 'type' or x == 'any':
                    return None
        return False

    def type_names(self, t):
        if t[0] == 'cls':
            return [t[1]]
        if t[0] == 'ext':
            n = t[1]
            if n.startswith('builtins.'):
                n = n[9:]
            return [n]
        if t[0] == 'tup':
            out = []
            for x in t[1]:
                r = self.type_names(x)
                if r is None:
                    return None
                out += r
            return out
        return None

    def assume(self, c, val, st):
        """Refine st (in place) by c being val.  False when contradictory."""
        r = self.truth(c, st)
        if r is not None and r != val:
            return False
        if c[0] == 'op' and c[1] == 'not':
            return self.assume(c[2], not val, st)
        if c[0] == 'op' and c[1] in ('is', 'eq', 'isinstance', 'in', 'lt', 'le', 'issubclass', 'hasattr'):
            st.facts[c] = val
            if c[1] == 'eq' and c[2][0] in ('sym', 'op') and is_k(c[3]) and val:
                st.facts[('val', c[2])] = c[3]
            elif c[1] == 'eq' and c[3][0] in ('sym', 'op') and is_k(c[2]) and val:
                st.facts[('val', c[3])] = c[2]
            elif c[1] == 'is' and val and is_k(c[3]) and c[2][0] in ('sym', 'op'):
                st.facts[('val', c[2])] = c[3]
            elif c[1] == 'is' and val and c[2][0] in ('sym', 'op') and c[3][0] in ('cls',):
                st.facts[('val', c[2])] = c[3]
            elif c[1] == 'eq' and val and c[2][0] in ('sym', 'op') and c[3][0] == 'cls':
                st.facts[('val', c[2])] = c[3]
            if c[1] == 'isinstance' and val:
                names = self.type_names(c[3])
                cur = self.types(c[2], st)
                if names is not None and c[2][0] in ('sym', 'op', 'ref'):
                    if cur is None:
                        st.facts[('type', c[2])] = frozenset(names)
                    else:
                        keep = frozenset(x for x in cur if self.sub_type(x, names) is not False)
                        if keep:
                            st.facts[('type', c[2])] = keep
                        else:
                            # narrower class than declared
                            st.facts[('type', c[2])] = frozenset(names)
            if c[1] == 'isinstance' and not val:
                names = self.type_names(c[3])
                cur = self.types(c[2], st)
                if names is not None and cur is not None and c[2][0] in ('sym', 'op'):
                    keep = frozenset(x for x in cur if self.sub_type(x, names) is not True)
                    if not keep:
                        return False
                    st.facts[('type', c[2])] = keep
            if c[1] == 'is' and c[3] == NONE and not val:
                cur = self.types(c[2], st)
                if cur is not None and 'NoneType' in cur and c[2][0] in ('sym', 'op'):
                    st.facts[('type', c[2])] = cur - frozenset(['NoneType'])
            return True
        if c[0] in ('sym', 'op', 'ref'):
            inner = c[2] if c[0] == 'op' and c[1] == 'truth' else c
            st.facts[('op', 'truth', inner)] = val
            if val and self.types(inner, st) is not None and 'NoneType' in self.types(inner, st) and inner[0] != 'ref':
                st.facts[('type', inner)] = self.types(inner, st) - frozenset(['NoneType'])
        return True

    def split(self, c, st):
        """[(bool, state)] for a condition value."""
        r = self.truth(c, st)
        if r is not None:
            return [(r, st)]
        out = []
        a, b = st.fork(), st.fork()
        if self.assume(c, True, a):
            out.append((True, a))
        if self.assume(c, False, b):
            out.append((False, b))
        return out

    # ---------------------------------------------------------------- entry
    def new_frame(self, fi, parent=None):
        self.fcount += 1
        f = Frame(fi, fi.module, (parent.depth + 1) if parent else 0, parent, fi.closure)
        f.fid = self.fcount
        return f

    def run(self, fi, args, st, kwargs=None):
        """Analyse a function: returns outcomes ('return'/'raise')."""
        return self.call_function(fi, args, kwargs or {}, st, None, None)

    def bind(self, fi, args, kwargs, st, frame):
        a = fi.node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        star = kwargs.pop('**', None)
        stararg = None
        if args and args[-1][0] == 'op' and args[-1][1] == 'starargs':
            stararg = args[-1][2]
            args = args[:-1]
        for i, pn in enumerate(params):
            if i < len(args):
                env[pn] = args[i]
            elif pn in kwargs:
                env[pn] = kwargs.pop(pn)
            elif stararg is not None:
                env[pn] = op('index', stararg, K(i - len(args)))
            else:
                j = i - (len(params) - len(fi.defaults))
                if star is not None:
                    env[pn] = op('kw', star, K(pn))
                elif j < 0:
                    return None
                else:
                    env[pn] = wrap(fi.defaults[j], fi.qual + ':default')
        if a.vararg:
            env[a.vararg.arg] = ('tup', tuple(args[len(params):]))
            if stararg is not None:
                env[a.vararg.arg] = op('typed', stararg, frozenset(['tuple']))
        elif len(args) > len(params):
            return None
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            else:
                env[k.arg] = wrap(fi.kw_defaults.get(k.arg), 'default')
        if a.kwarg:
            ref = st.alloc(__cls__='dict', __keys__=frozenset(K(k) for k in kwargs) if star is None else None, __site__='kwargs')
            for k, v in kwargs.items():
                st.setf(ref[1], ('key', K(k)), v)
            if star is not None:
                st.setf(ref[1], '__star__', star)
            env[a.kwarg.arg] = ref
        elif kwargs:
            return None
        return env

    def call_function(self, fi, args, kwargs, st, node, parent):
        """Inline a function call; returns outcomes return/raise with caller env restored."""
        self.tick()
        frame = self.new_frame(fi, parent)
        frame.node = node
        saved = st.env
        st = st.fork()
        env = self.bind(fi, args, kwargs, st, frame)
        if env is None:
            return [Outcome('raise', 'TypeError', st, node)]
        if fi.closure is not None and isinstance(fi.closure, dict) and parent is not None:
            base = dict(fi.closure) if not isinstance(fi.closure, Scope) else {}
            for k, v in base.items():
                env.setdefault(k, v)
        env['#fi'] = ('fn', fi, None)
        st.env = env
        self.inlined.add(fi.qual)
        self.h.on_enter(self, st, fi, args, node, frame)
        if isinstance(fi.node, ast.Lambda):
            outs = [Outcome('return', v, s) for v, s in self.ev(fi.node.body, st, frame)]
        else:
            outs = self.block(fi.node.body, st, frame)
        res = []
        for o in outs:
            if o.kind == 'fall':
                o = Outcome('return', NONE, o.st, node)
            if o.kind == 'return':
                if fi.is_gen:
                    o = Outcome('return', ('op', 'gen', fi.qual, self._gval(o.st)), o.st, node)
                self.h.on_return(self, o.st, fi, o.val, node, frame)
            res.append(o)
        for exc, s, n in frame.raises:
            res.append(Outcome('raise', exc, s, n))
        for o in res:
            s = o.st
            s.env = dict(saved)
        return self.limit(res, frame)

    def _gval(self, st):
        return st.env.get('#yield', NONE)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, frame):
        states = [Outcome('fall', None, st)]
        done = []
        for s in stmts:
            nxt = []
            for o in states:
                for r in self.stmt(s, o.st, frame):
                    if r.kind == 'fall':
                        nxt.append(r)
                    else:
                        done.append(r)
            states = self.limit(nxt, frame)
            if not states:
                break
        return states + done

    def stmt(self, s, st, frame):
        self.tick()
        fn = getattr(self, 's_' + type(s).__name__, None)
        if fn is None:
            return [Outcome('fall', None, st)]
        return fn(s, st, frame)

    def fall(self, sts):
        return [Outcome('fall', None, s) for s in sts]

    def s_Pass(self, s, st, frame):
        return [Outcome('fall', None, st)]

    def s_Expr(self, s, st, frame):
        if isinstance(s.value, ast.Constant):
            return [Outcome('fall', None, st)]
        return [Outcome('fall', None, s2) for v, s2 in self.ev(s.value, st, frame)]

    def s_Assign(self, s, st, frame):
        out = []
        for v, s2 in self.ev(s.value, st, frame):
            cur = [s2]
            for t in s.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c, frame, s)
                cur = nxt
            out += self.fall(cur)
        return out

    def s_AnnAssign(self, s, st, frame):
        if s.value is None:
            return [Outcome('fall', None, st)]
        out = []
        for v, s2 in self.ev(s.value, st, frame):
            out += self.fall(self.assign(s.target, v, s2, frame, s))
        return out

    def s_AugAssign(self, s, st, frame):
        out = []
        import copy
        t = copy.copy(s.target)
        t.ctx = ast.Load()
        for cur, s2 in self.ev(t, st, frame):
            for v, s3 in self.ev(s.value, s2, frame):
                for r, s4 in self.binop(s.op, cur, v, s3, s, frame):
                    if cur[0] == 'ref' and s4.heap.get(cur[1], {}).get('__cls__') in ('list', 'set', 'dict', 'bytearray'):
                        self.mutate(cur, 'extend', [v], s4, s, frame)
                        r = cur
                    elif cur[0] in ('sym', 'op', 'sc') and (self.types(cur, s4) or frozenset()) & frozenset(['list', 'set', 'dict']):
                        self.h.on_mutate(self, s4, cur, 'extend', [v], s, frame)
                    out += self.fall(self.assign(s.target, r, s4, frame, s))
        return out

    def s_Delete(self, s, st, frame):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    c.env.pop(t.id, None)
                    nxt.append(c)
                elif isinstance(t, ast.Subscript):
                    for o, s2 in self.ev(t.value, c, frame):
                        for k, s3 in self.ev(t.slice, s2, frame):
                            self.implicit('delitem', (o, k), s3, t, frame)
                            cls = self.cls_of(o, s3)
                            if cls is not None and cls.method('__delitem__'):
                                for v, s4 in self.call_bound(cls, '__delitem__', o, [k], s3, t, frame):
                                    nxt.append(s4)
                                continue
                            if o[0] == 'ref' and is_k(k):
                                ob = dict(s3.heap[o[1]])
                                ob.pop(('key', k), None)
                                if ob.get('__keys__') is not None:
                                    ob['__keys__'] = ob['__keys__'] - frozenset([k])
                                s3.heap[o[1]] = ob
                            self.h.on_delete(self, s3, o, k, t, frame)
                            nxt.append(s3)
                elif isinstance(t, ast.Attribute):
                    for o, s2 in self.ev(t.value, c, frame):
                        self.h.on_delete(self, s2, o, K('.' + t.attr), t, frame)
                        nxt.append(s2)
                else:
                    nxt.append(c)
            cur = nxt
        return self.fall(cur)

    def s_If(self, s, st, frame):
        out = []
        for v, s2 in self.ev_cond(s.test, st, frame):
            self.h.on_branch(self, s2, s, v, frame)
            out += self.block(s.body if v else s.orelse, s2, frame)
        return out

    def assigned_names(self, body):
        out = set()
        for b in body:
            for n in [b] + list(ast.walk(b)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
        return out

    def widen(self, st, names, entry, node, lid=''):
        """Locals assigned in a loop body become loop values."""
        s = st.fork()
        for n in names:
            if n in s.env:
                v = s.env[n]
                if n in entry.env and entry.env[n] == v:
                    continue
                if v[0] in ('ref', 'cls', 'fn', 'mod'):
                    continue
                t = self.types(v, s)
                if n in entry.env:
                    t0 = self.types(entry.env[n], entry)
                    t = None if t is None or t0 is None else t | t0
                if is_k(v) and v[1] in ('bool', 'NoneType'):
                    continue
                d = deps(v)
                if n in entry.env:
                    d |= deps(entry.env[n])
                d = frozenset(x for x in d if not (x[0] == 'sym' and x[1].startswith('loop:')))
                s.env[n] = ('op', 'loop', K('%s@%s%s' % (n, node.lineno, lid)), d, t)
        for oid, fields in list(s.heap.items()):
            old = entry.heap.get(oid)
            if old is fields or old is None:
                continue
            upd = None
            for f in ('__const__', '__len__', '__keys__'):
                if fields.get(f) != old.get(f):
                    upd = upd or dict(fields)
                    upd[f] = None
            if fields.get('__elt__') != old.get('__elt__') and fields.get('__elt__') is not None and fields['__elt__'][0] in ('op', 'k'):
                upd = upd or dict(fields)
                upd['__elt__'] = ('op', 'loop', K('%s[]@%s' % (oid, node.lineno)), frozenset(deps(fields['__elt__'])), None)
            for f, v in fields.items():
                if isinstance(v, tuple) and v and v[0] == 'op' and old.get(f) != v and not (isinstance(f, str) and f.startswith('__')):
                    d = deps(v)
                    o0 = old.get(f)
                    t = self.types(v, s)
                    if isinstance(o0, tuple):
                        d |= deps(o0)
                        t0 = self.types(o0, entry)
                        t = None if t is None or t0 is None else t | t0
                    d = frozenset(x for x in d if not (x[0] == 'sym' and x[1].startswith('loop:')))
                    upd = upd or dict(fields)
                    upd[f] = ('op', 'loop', K('%s.%s@%s' % (oid, f, node.lineno)), d, t)
            if upd is not None:
                s.heap[oid] = upd
        self.strip_facts(s, entry)
        return s

    def strip_facts(self, s, entry):
        """Facts about values of one iteration do not survive it."""
        for k in list(s.facts):
            if entry.facts.get(k, _MISS) is _MISS and _mentions_loop(k):
                del s.facts[k]

    def loop(self, node, st, frame, test, body, orelse, target=None, it=None):
        self.h.on_loop(self, node, frame)
        names = self.assigned_names(body) | (self.assigned_names([target]) if target is not None else set())
        out = []
        heads = [st]
        seen = set()
        exits = []
        rounds = 0
        entry = st
        lid = ''
        if self.h.arith:
            self.nloops = getattr(self, 'nloops', 0) + 1
            lid = '#%d' % self.nloops
        while heads:
            rounds += 1
            nxt = []
            for h in heads:
                k = h.key()
                if k in seen:
                    continue
                seen.add(k)
                if test is not None:
                    conds = self.ev_cond(test, h.fork(), frame)
                    for v, s2 in conds:
                        if v:
                            outs = self.block(body, s2, frame)
                            if self.h.arith:
                                for o in outs:
                                    if o.kind in ('fall', 'continue'):
                                        self.h.on_backedge(self, h, o.st, names, entry, node, frame)
                            nxt += outs
                        else:
                            exits.append(s2)
                else:
                    if not (rounds == 1 and self.nonempty(it, h)):
                        exits.append(h.fork())
                    if self.truth(it, h) is False and it[0] in ('k', 'tup', 'sc'):
                        continue
                    s2 = h.fork()
                    elem = self.elem(it, s2, node, frame)
                    for s3 in self.assign(target, elem, s2, frame, node):
                        nxt += self.block(body, s3, frame)
            heads = []
            for o in self.limit(nxt, frame):
                if o.kind in ('fall', 'continue'):
                    w = self.widen(o.st, names, entry, node, lid)
                    if self.h.arith:
                        self.h.on_head(self, w, names, entry, node, frame)
                    heads.append(w)
                elif o.kind == 'break':
                    out.append(Outcome('fall', None, o.st))
                else:
                    out.append(o)
            if rounds > self.h.max_rounds:
                break
        if not self.h.arith:
            for x in exits:
                self.strip_facts(x, entry)
            for o in out:
                if o.kind == 'fall':
                    self.strip_facts(o.st, entry)
        ex = self.limit([Outcome('fall', None, s) for s in exits], frame)
        for o in ex:
            if orelse:
                out += self.block(orelse, o.st, frame)
            else:
                out.append(o)
        return self.limit(out, frame)

    def nonempty(self, it, st):
        return it[0] in ('tup', 'sc') and self.truth(it, st) is True

    def elem(self, it, st, node, frame):
        if it[0] == 'op' and it[1] == 'builtin':
            fn = it[2][2]
            if fn == 'enumerate' and len(it) > 3:
                idx = ('op', 'loop', K('idx@%s' % node.lineno), frozenset(), frozenset(['int']))
                return tup(idx, self.elem(it[3], st, node, frame))
            if fn == 'range':
                return ('op', 'loop', K('idx@%s' % node.lineno), frozenset(deps(it)), frozenset(['int']))
            if fn in ('reversed', 'sorted', 'list', 'tuple', 'iter', 'set') and len(it) > 3:
                return self.elem(it[3], st, node, frame)
            if fn == 'zip':
                return tup(*[self.elem(a, st, node, frame) for a in it[3:]])
        if it[0] == 'op' and it[1] == 'meth' and it[3] == K('items'):
            return tup(op('keyof', it[2]), op('elem', it[2]))
        if it[0] == 'ref':
            o = st.heap.get(it[1], {})
            if o.get('__elt__') is not None:
                return o['__elt__']
        if it[0] == 'tup' and it[1]:
            vs = set(it[1])
            return it[1][0] if len(vs) == 1 else self.join_vals(list(it[1]))
        if self.types(it, st) == frozenset(['bytes']):
            return ('op', 'loop', K('byte@%s' % node.lineno), frozenset(deps(it)), frozenset(['int']))
        if self.types(it, st) == frozenset(['str']):
            return op('typed', op('elem', it), frozenset(['str']))
        return op('elem', it)

    def concrete_iter(self, it, st):
        """A short list of concrete abstract elements, or None."""
        if it[0] == 'tup':
            return list(it[1]) if len(it[1]) <= self.h.unroll else None
        if it[0] == 'sc':
            o = it[1].obj
            if len(o) <= self.h.unroll:
                if isinstance(o, (set, frozenset)):
                    try:
                        o = sorted(o)
                    except TypeError:
                        return None
                return [wrap(x, it[1].label) for x in o]
            return None
        if it[0] == 'k' and it[1] == 'str' and len(it[2]) <= self.h.unroll:
            return [K(c) for c in it[2]]
        if it[0] == 'op' and it[1] == 'builtin':
            fn = it[2][2]
            if fn == 'enumerate' and len(it) in (4, 5):
                start = it[4] if len(it) == 5 else K(0)
                if start[0] == 'op' and start[1] == 'kwarg':
                    start = start[3]
                e = self.concrete_iter(it[3], st)
                if e is None or not is_k(start):
                    return None
                return [tup(K(i), x) for i, x in enumerate(e, start[2])]
            if fn in ('reversed',) and len(it) == 4:
                e = self.concrete_iter(it[3], st)
                return None if e is None else e[::-1]
            if fn in ('list', 'tuple', 'iter') and len(it) == 4:
                return self.concrete_iter(it[3], st)
            if fn == 'range' and all(is_k(a) and isinstance(a[2], int) for a in it[3:]):
                r = range(*[a[2] for a in it[3:]])
                return [K(i) for i in r] if len(r) <= self.h.unroll else None
            if fn == 'zip':
                es = [self.concrete_iter(a, st) for a in it[3:]]
                return None if any(e is None for e in es) else [('tup', t) for t in zip(*es)]
        if it[0] == 'ref':
            o = st.heap.get(it[1], {})
            c = o.get('__const__')
            if c is not None and len(c) <= self.h.unroll:
                return list(c)
        return None

    def s_For(self, s, st, frame):
        out = []
        for it, s2 in self.ev(s.iter, st, frame):
            it = self.resolve(it, s2)
            for it2, s3 in self.iterate(it, s2, s, frame):
                out += self._for(s, it2, s3, frame)
        return out

    def iterate(self, it, st, node, frame):
        """Call __iter__ of package objects (generators are inlined for their effects)."""
        cls = self.cls_of(it, st)
        if cls is not None and cls.method('__iter__') is not None:
            return self.call_bound(cls, '__iter__', it, [], st, node, frame)
        self.implicit('iter', (it,), st, node, frame)
        return [(it, st)]

    def _for(self, s, it, st, frame):
        conc = self.concrete_iter(it, st)
        if conc is None:
            return self.loop(s, st, frame, None, s.body, s.orelse, s.target, it)
        cur = [st]
        out = []
        for x in conc:
            nxt = []
            for c in cur:
                for c2 in self.assign(s.target, x, c, frame, s):
                    for o in self.block(s.body, c2, frame):
                        if o.kind in ('fall', 'continue'):
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            out.append(Outcome('fall', None, o.st))
                        else:
                            out.append(o)
            cur = [o.st for o in self.limit(self.fall(nxt), frame)]
            if not cur:
                break
        for c in cur:
            if s.orelse:
                out += self.block(s.orelse, c, frame)
            else:
                out.append(Outcome('fall', None, c))
        return self.limit(out, frame)

    def s_While(self, s, st, frame):
        return self.loop(s, st, frame, s.test, s.body, s.orelse)

    def s_Break(self, s, st, frame):
        return [Outcome('break', None, st)]

    def s_Continue(self, s, st, frame):
        return [Outcome('continue', None, st)]

    def s_Return(self, s, st, frame):
        if s.value is None:
            return [Outcome('return', NONE, st, s)]
        return [Outcome('return', v, s2, s) for v, s2 in self.ev(s.value, st, frame)]

    def s_Raise(self, s, st, frame):
        if s.exc is None:
            exc = st.env.get('#exc', K('Exception'))
            return [self.mk_raise(exc[2], st, s, frame)]
        e = s.exc
        out = []
        if isinstance(e, ast.Call):
            name = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, 'attr', 'Exception')
            vs = [st]
            for a in list(e.args) + [k.value for k in e.keywords]:
                nxt = []
                for v in vs:
                    nxt += [x for _, x in self.ev(a.value if isinstance(a, ast.Starred) else a, v, frame)]
                vs = nxt
            return [self.mk_raise(name, v, s, frame) for v in vs]
        for v, s2 in self.ev(e, st, frame):
            if v[0] == 'op' and v[1] == 'exc':
                name = v[2][2]
            elif v[0] == 'ext':
                name = v[1].split('.')[-1]
            elif v[0] == 'op' and v[1] == 'builtin':
                name = v[2][2]
            else:
                name = 'Exception'
            out.append(self.mk_raise(name, s2, s, frame))
        return out

    def mk_raise(self, name, st, node, frame):
        self.h.on_raise(self, st, name, node, frame)
        return Outcome('raise', name, st, node)

    def s_Try(self, s, st, frame):
        saved = frame.raises
        frame.raises = []
        outs = self.block(s.body, st.fork(), frame)
        raised = [Outcome('raise', e, x, n) for e, x, n in frame.raises]
        frame.raises = []
        res = []
        norm = []
        for o in outs:
            if o.kind == 'raise':
                raised.append(o)
            elif o.kind == 'fall':
                norm.append(o)
            else:
                res.append(o)
        for o in norm:
            res += self.block(s.orelse, o.st, frame) if s.orelse else [o]
        raised = self.limit(raised, frame)
        for o in raised:
            res += self.handle(s, o, frame)
        if s.finalbody:
            extra = [Outcome('raise', e, x, n) for e, x, n in frame.raises]
            frame.raises = []
            fin = []
            for o in self.limit(res + extra, frame):
                for f in self.block(s.finalbody, o.st, frame):
                    if f.kind == 'fall':
                        fin.append(Outcome(o.kind, o.val, f.st, o.node))
                    else:
                        fin.append(f)
            res = fin
        frame.raises = saved + frame.raises
        return self.limit(res, frame)

    s_TryStar = s_Try

    def handle(self, s, o, frame):
        anc = exc_ancestors(o.val)
        maybe = o.val in ('*',)
        res = []
        for h in s.handlers:
            names = handler_names(h)
            if names is not None and any(n in ('Exception', 'BaseException') for n in names):
                names = None
            match = names is None or any(n in anc for n in names)
            if not match and maybe:
                match = True
                partial = True
            elif match and names is not None and maybe:
                partial = True
            else:
                partial = False
            # a raised general exception may be one of the more specific handled ones
            if not match and names is not None and o.val in ('Exception',) :
                match, partial = True, True
            if match:
                st = o.st.fork()
                exc = o.val if o.val != '*' else (names[0] if names else 'Exception')
                st.env['#exc'] = K(exc)
                if h.name:
                    st.env[h.name] = ('op', 'exc', K(exc))
                for r in self.block(h.body, st, frame):
                    if h.name:
                        r.st.env.pop(h.name, None)
                    res.append(r)
                if not partial:
                    return res
        res.append(o)
        return res

    def s_With(self, s, st, frame):
        cur = [st]
        for i in s.items:
            nxt = []
            for c in cur:
                for v, s2 in self.ev(i.context_expr, c, frame):
                    if i.optional_vars is not None:
                        nxt += self.assign(i.optional_vars, v, s2, frame, s)
                    else:
                        nxt.append(s2)
            cur = nxt
        out = []
        for c in cur:
            out += self.block(s.body, c, frame)
        return out

    def s_FunctionDef(self, s, st, frame):
        fi = FuncInfo(s, frame.module, None, 'func', Scope(frame.module.env))
        fi.defaults = [None for _ in s.args.defaults]
        st.env[s.name] = ('fn', fi, ('tup', (('envref', tuple(sorted((k, v) for k, v in st.env.items() if not k.startswith('#')), ) if False else ()),)) if False else None)
        st.env[s.name] = ('fn', fi, None)
        return [Outcome('fall', None, st)]

    def s_Import(self, s, st, frame):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = ('ext', a.name)
        return [Outcome('fall', None, st)]

    def s_ImportFrom(self, s, st, frame):
        for a in s.names:
            if s.level and s.module in self.p.modules:
                v = self.p.modules[s.module].env.get(a.name)
                st.env[a.asname or a.name] = wrap(v) if v is not None else ('sym', 'import', None)
            elif s.level and not s.module and a.name in self.p.modules:
                st.env[a.asname or a.name] = ('mod', self.p.modules[a.name])
            else:
                st.env[a.asname or a.name] = ('ext', '%s.%s' % (s.module, a.name))
        return [Outcome('fall', None, st)]

    def s_Global(self, s, st, frame):
        g = st.env.get('#globals', ('k', 'frozenset', frozenset()))
        st.env['#globals'] = ('k', 'frozenset', g[2] | frozenset(s.names))
        return [Outcome('fall', None, st)]

    def s_Assert(self, s, st, frame):
        out = []
        for v, s2 in self.ev_cond(s.test, st, frame):
            if v:
                out.append(Outcome('fall', None, s2))
            else:
                out.append(self.mk_raise('AssertionError', s2, s, frame))
        return out

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, frame, node):
        """Returns list of states."""
        if isinstance(t, ast.Name):
            g = st.env.get('#globals')
            if g is not None and t.id in g[2]:
                self.h.on_store(self, st, ('mod', frame.module), t.id, v, node, frame)
                return [st]
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v, st)
            cur = [st]
            items = None
            if v[0] == 'tup' and len(v[1]) == len(t.elts):
                items = v[1]
            elif v[0] == 'ref' and st.heap.get(v[1], {}).get('__const__') is not None and len(st.heap[v[1]]['__const__']) == len(t.elts):
                items = st.heap[v[1]]['__const__']
            elif v[0] == 'op' and v[1] == 'phi' and all(isinstance(x, tuple) and x and x[0] == 'tup' and len(x[1]) == len(t.elts) for x in v[2]):
                vs = sorted(v[2], key=repr)
                items = []
                for i in range(len(t.elts)):
                    col = [x[1][i] for x in vs]
                    items.append(col[0] if len(set(col)) == 1 else self.join_vals(col))
            else:
                self.implicit('unpack', (v, K(len(t.elts))), st, node, frame)
            for i, e in enumerate(t.elts):
                nxt = []
                for c in cur:
                    x = items[i] if items is not None else op('index', v, K(i))
                    nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, x, c, frame, node)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for o, s2 in self.ev(t.value, st, frame):
                out += self.store_attr(o, t.attr, v, s2, node, frame)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o, s2 in self.ev(t.value, st, frame):
                for k, s3 in self.ev(t.slice, s2, frame):
                    out += self.store_item(o, k, v, s3, t, frame)
            return out
        return [st]

    def store_attr(self, o, attr, v, st, node, frame):
        cls = self.cls_of(o, st)
        if cls is not None:
            pv, ow = cls.lookup(attr)
            if isinstance(pv, PropertyInfo):
                if pv.fset is None:
                    frame.raises.append(('AttributeError', st.fork(), node))
                    return []
                return [s for _, s in self.invoke(('fn', pv.fset, o), [v], {}, st, node, frame)]
        if o[0] == 'ref' and o[1] in st.heap:
            st.setf(o[1], attr, v)
        self.h.on_store(self, st, o, attr, v, node, frame)
        return [st]

    def store_item(self, o, k, v, st, node, frame):
        cls = self.cls_of(o, st)
        if cls is not None and cls.method('__setitem__') is not None:
            return [s for _, s in self.call_bound(cls, '__setitem__', o, [k, v], st, node, frame)]
        if o[0] == 'op' and o[1] == 'objdict':
            if is_k(k):
                return self.store_attr(o[2], k[2], v, st, node, frame)
            self.h.on_store(self, st, o[2], op('dynattr', k), v, node, frame)
            return [st]
        self.implicit('setitem', (o, k, v), st, node, frame)
        if o[0] == 'ref' and o[1] in st.heap:
            ob = dict(st.heap[o[1]])
            if is_const(k):
                ob[('key', k)] = v
                if ob.get('__keys__') is not None:
                    ob['__keys__'] = ob['__keys__'] | frozenset([k])
            else:
                if ob.get('__keys__') is not None:
                    ob['__keys__'] = None
                for kk in list(ob):
                    if isinstance(kk, tuple) and kk[0] == 'key':
                        del ob[kk]
            ob['__const__'] = None
            ob['__len__'] = None
            ob['__elt__'] = v if ob.get('__elt__') in (None, v) else self.join_vals([ob['__elt__'], v])
            st.heap[o[1]] = ob
        self.h.on_substore(self, st, o, k, v, node, frame)
        return [st]

    def mutate(self, o, meth, args, st, node, frame):
        if o[0] == 'ref' and o[1] in st.heap:
            ob = dict(st.heap[o[1]])
            c = ob.get('__const__')
            if meth == 'append' and c is not None and len(c) < 24 and not self.in_loop(frame):
                ob['__const__'] = c + (args[0],)
                ob['__elt__'] = args[0] if ob.get('__elt__') in (None, args[0]) else self.join_vals([ob['__elt__'], args[0]])
            elif meth == 'add' and c is not None and len(c) < 96 and args and is_k(args[0]) and all(is_k(x) for x in c):
                if args[0] not in c:
                    ob['__const__'] = c + (args[0],)
                ob['__len__'] = None
                ob['__elt__'] = args[0] if ob.get('__elt__') in (None, args[0]) else self.join_vals([ob['__elt__'], args[0]])
            elif meth == 'update' and c is not None and ob.get('__cls__') == 'set' and all(is_k(x) for x in c) and len(args) == 1 and \
                    self.plain_items(args[0], st) is not None:
                ob['__const__'] = c + tuple(x for x in self.plain_items(args[0], st) if x not in c)
                ob['__len__'] = None
                ob['__elt__'] = None
            else:
                ob['__const__'] = None
                ob['__len__'] = None
                if args:
                    ob['__elt__'] = args[-1] if ob.get('__elt__') in (None, args[-1]) else self.join_vals([ob['__elt__'], args[-1]])
                if meth in ('update', 'pop', 'clear', 'setdefault'):
                    ob['__keys__'] = None
            st.heap[o[1]] = ob
        self.h.on_mutate(self, st, o, meth, args, node, frame)

    def plain_items(self, v, st):
        """Constants an iterable holds, without repetition."""
        if is_k(v) and isinstance(v[2], str):
            c = [K(x) for x in v[2]]
        else:
            c = self.concrete_iter(v, st)
        if c is None or not all(is_k(x) for x in c) or len(c) > 96:
            return None
        return tuple(sorted(set(c), key=repr))

    def in_loop(self, frame):
        return False

    def implicit(self, what, info, st, node, frame):
        for e in self.h.implicit(self, st, what, info, node, frame):
            frame.raises.append((e, st.fork(), node))

    # ---------------------------------------------------------------- expressions
    def cls_of(self, o, st):
        if o[0] == 'ref' and o[1] in st.heap:
            c = st.heap[o[1]].get('__cls__')
            return c if isinstance(c, ClassInfo) else None
        if o[0] == 'const_inst':
            return o[1].cls
        if o[0] in ('sym', 'op'):
            ts = self.types(o, st)
            if ts is not None and len(ts) == 1:
                c = next(iter(ts))
                return c if isinstance(c, ClassInfo) else None
        return None

    def ev(self, e, st, frame):
        """[(value, state)]; raising paths are appended to frame.raises."""
        self.tick()
        fn = getattr(self, 'e_' + type(e).__name__, None)
        if fn is None:
            return [(('sym', 'expr:%s' % type(e).__name__, None), st)]
        r = fn(e, st, frame)
        if len(r) > self.h.max_states:
            r = self.dedupe(r)
        return r

    def ev_list(self, es, st, frame):
        cur = [((), st)]
        for e in es:
            nxt = []
            for vs, s in cur:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s, frame):
                        v = self.resolve(v, s2)
                        if v[0] == 'tup':
                            nxt.append((vs + v[1], s2))
                        else:
                            nxt.append((vs + (op('starargs', v),), s2))
                else:
                    for v, s2 in self.ev(e, s, frame):
                        nxt.append((vs + (v,), s2))
            cur = nxt
        return cur

    def ev_cond(self, e, st, frame):
        """[(bool, state)] with short-circuit refinement."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for v, s2 in self.ev_cond(x, s, frame):
                        if v == isand and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((v, s2))
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not v, s) for v, s in self.ev_cond(e.operand, st, frame)]
        out = []
        for v, s in self.ev(e, st, frame):
            cls = self.cls_of(v, s)
            if cls is not None and s.facts.get(('op', 'truth', v)) is None:
                m = cls.method('__bool__') or (cls.method('__len__') if not cls.method('__bool__') else None)
                if m is not None and self.h.inline(self, m, v, frame) and v[0] == 'ref' and False:
                    pass
            out += self.split(v, s)
        return self.dedupe(out) if len(out) > self.h.max_states else out

    def e_Constant(self, e, st, frame):
        return [(K(e.value) if not isinstance(e.value, type(Ellipsis)) else ('sym', '...', None), st)]

    def e_JoinedStr(self, e, st, frame):
        cur = [st]
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                cur = [s2 for s in cur for _, s2 in self.ev(v.value, s, frame)]
        return [(op('typed', op('fstr', K(id(e) % 100000)), frozenset(['str'])), s) for s in cur]

    def e_Name(self, e, st, frame):
        n = e.id
        if n in st.env:
            return [(self.resolve(st.env[n], st), st)]
        c = frame.closure
        while c is not None:
            if isinstance(c, (Scope, ClassEnv)):
                if n in c:
                    return [(wrap(c[n], n), st)]
                c = c.outer
                continue
            break
        # enclosing inlined frames (nested functions)
        if frame.fi is not None and frame.fi.closure is not None:
            f = frame.parent
            while f is not None:
                sv = getattr(f, 'live_env', None)
                if sv is not None and n in sv:
                    return [(sv[n], st)]
                f = f.parent
        m = frame.module
        if n in m.env:
            return [(wrap(m.env[n], '%s.%s' % (m.name, n)), st)]
        if n in ('True', 'False', 'None'):
            return [(K({'True': True, 'False': False, 'None': None}[n]), st)]
        return [(('ext', 'builtins.' + n), st)]

    def e_Tuple(self, e, st, frame):
        return [(('tup', vs), s) for vs, s in self.ev_list(e.elts, st, frame)]

    def e_List(self, e, st, frame):
        out = []
        for vs, s in self.ev_list(e.elts, st, frame):
            out.append((self.new_container('list', vs, s, e), s))
        return out

    def new_container(self, kind, vs, st, node):
        elt = None
        if vs:
            elt = vs[0] if len(set(vs)) == 1 else self.join_vals(list(vs))
        return st.alloc(__cls__=kind, __const__=tuple(vs), __elt__=elt, __site__=getattr(node, 'lineno', 0), __len__=K(len(vs)))

    def e_Set(self, e, st, frame):
        return [(self.new_container('set', vs, s, e), s) for vs, s in self.ev_list(e.elts, st, frame)]

    def e_Dict(self, e, st, frame):
        out = []
        keys = [k for k in e.keys]
        cur = [((), (), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for ks, vs, s in cur:
                if k is None:
                    for x, s2 in self.ev(v, s, frame):
                        nxt.append((ks + (None,), vs + (x,), s2))
                    continue
                for kk, s2 in self.ev(k, s, frame):
                    for vv, s3 in self.ev(v, s2, frame):
                        nxt.append((ks + (kk,), vs + (vv,), s3))
            cur = nxt
        for ks, vs, s in cur:
            ref = s.alloc(__cls__='dict', __site__=e.lineno, __len__=K(len(ks)) if None not in ks else None)
            o = dict(s.heap[ref[1]])
            if all(k is not None and is_const(k) for k in ks):
                o['__keys__'] = frozenset(ks)
            else:
                o['__keys__'] = None
            for k, v in zip(ks, vs):
                if k is not None and is_const(k):
                    o[('key', k)] = v
            vals = [v for v in vs]
            if vals:
                o['__elt__'] = vals[0] if len(set(vals)) == 1 else self.join_vals(vals)
            s.heap[ref[1]] = o
            out.append((ref, s))
        return out

    def e_Lambda(self, e, st, frame):
        key = id(e)
        fi = self.p._lambda_cache.get(key)
        if fi is None:
            fi = FuncInfo(e, frame.module, None, 'func', Scope(frame.module.env))
            fi.defaults = []
            self.p._lambda_cache[key] = fi
        return [(('fn', fi, None), st)]

    def e_IfExp(self, e, st, frame):
        out = []
        for v, s in self.ev_cond(e.test, st, frame):
            out += self.ev(e.body if v else e.orelse, s, frame)
        return out

    def e_BoolOp(self, e, st, frame):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for v, s2 in self.ev(x, s, frame):
                    if i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    for t, s3 in self.split(v, s2):
                        if t == isand:
                            nxt.append(s3)
                        else:
                            out.append((self.resolve(v, s3), s3))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, frame):
        out = []
        for v, s in self.ev(e.operand, st, frame):
            if isinstance(e.op, ast.Not):
                r = self.truth(v, s)
                out.append((K(not r) if r is not None else op('not', v), s))
            elif is_k(v) and isinstance(v[2], (int, float)):
                out.append((K({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v[2])), s))
            else:
                out.append((op('typed', op('un' + type(e.op).__name__, v), self.types(v, s)), s))
        return out

    def e_Compare(self, e, st, frame):
        out = []
        cur = [(v, s) for v, s in self.ev(e.left, st, frame)]
        if len(e.ops) == 1:
            for a, s in cur:
                for b, s2 in self.ev(e.comparators[0], s, frame):
                    out += self.compare(e.ops[0], a, b, s2, e, frame)
            return out
        # chained: conjunction
        cur = [(v, s) for v, s in cur]
        for i, (o, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for a, s in cur:
                for b, s2 in self.ev(c, s, frame):
                    for r, s3 in self.compare(o, a, b, s2, e, frame):
                        for t, s4 in self.split(r, s3):
                            if t and i < len(e.ops) - 1:
                                nxt.append((b, s4))
                            else:
                                out.append((K(t), s4))
            cur = nxt
        return out

    def compare(self, o, a, b, st, node, frame):
        a, b = self.resolve(a, st), self.resolve(b, st)
        neg = isinstance(o, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(o, (ast.Is, ast.IsNot)):
            c = op('is', a, b)
        elif isinstance(o, (ast.Eq, ast.NotEq)):
            m = '__eq__'
            cls = self.cls_of(a, st)
            r = None
            if cls is not None and a[0] == 'ref' and cls.method('__eq__') is not None:
                if isinstance(o, ast.NotEq) and cls.method('__ne__') is not None:
                    fi = cls.method('__ne__')
                    if self.h.inline(self, fi, a, frame) and not self.recursive(fi, frame):
                        return self.call_bound(cls, '__ne__', a, [b], st, node, frame)
                fi = cls.method('__eq__')
                if self.h.inline(self, fi, a, frame) and not self.recursive(fi, frame):
                    rs = self.call_bound(cls, '__eq__', a, [b], st, node, frame)
                    return [((self.neg(v, s) if neg else v), s) for v, s in rs]
            self.implicit('eq', (a, b), st, node, frame)
            c = op('eq', a, b)
            if a[0] == 'k' and b[0] != 'k':
                c = op('eq', b, a)
        elif isinstance(o, (ast.In, ast.NotIn)):
            cls = self.cls_of(b, st)
            if cls is not None and cls.method('__contains__') is not None and not self.recursive(cls.method('__contains__'), frame):
                rs = self.call_bound(cls, '__contains__', b, [a], st, node, frame)
                return [((self.neg(v, s) if neg else v), s) for v, s in rs]
            self.implicit('in', (a, b), st, node, frame)
            c = op('in', a, b)
        else:
            self.implicit('order', (a, b), st, node, frame)
            if isinstance(o, ast.Lt):
                c = op('lt', a, b)
            elif isinstance(o, ast.Gt):
                c = op('lt', b, a)
            elif isinstance(o, ast.LtE):
                c = op('le', a, b)
            else:
                c = op('le', b, a)
        r = self.truth(c, st)
        if r is not None:
            return [(K(r != neg), st)]
        return [(op('not', c) if neg else c, st)]

    def neg(self, v, st):
        r = self.truth(v, st)
        return K(not r) if r is not None else op('not', v)

    _OPS = {ast.Add: ('add', O.add), ast.Sub: ('sub', O.sub), ast.Mult: ('mul', O.mul), ast.Div: ('div', O.truediv),
            ast.FloorDiv: ('floordiv', O.floordiv), ast.Mod: ('mod', O.mod), ast.Pow: ('pow', O.pow),
            ast.LShift: ('lshift', O.lshift), ast.RShift: ('rshift', O.rshift), ast.BitOr: ('bitor', O.or_),
            ast.BitAnd: ('bitand', O.and_), ast.BitXor: ('bitxor', O.xor)}

    def e_BinOp(self, e, st, frame):
        out = []
        for a, s in self.ev(e.left, st, frame):
            for b, s2 in self.ev(e.right, s, frame):
                out += self.binop(e.op, a, b, s2, e, frame)
        return out

    def binop(self, o, a, b, st, node, frame):
        a, b = self.resolve(a, st), self.resolve(b, st)
        name, fn = self._OPS.get(type(o), ('op', None))
        if is_k(a) and is_k(b) and fn is not None and a[2] is not None and b[2] is not None:
            try:
                if name in ('pow', 'lshift') and isinstance(b[2], int) and b[2] > 4096:
                    raise OverflowError
                if name == 'mul' and isinstance(a[2], (str, bytes)) and b[2] > 4096:
                    raise OverflowError
                r = fn(a[2], b[2])
                return [(K(r), st)]
            except TypeError:
                frame.raises.append(('TypeError', st.fork(), node))
                return []
            except (ValueError, OverflowError, ZeroDivisionError, KeyError):
                pass
        if name == 'mod' and is_k(a) and a[1] in ('str', 'bytes'):
            self.implicit('format', (a, b), st, node, frame)
            return [(op('typed', op('mod_str', a, b), frozenset([a[1]])), st)]
        if name == 'add' and a[0] == 'tup' and b[0] == 'tup':
            return [(('tup', a[1] + b[1]), st)]
        if a == NONE or b == NONE:
            frame.raises.append(('TypeError', st.fork(), node))
            return []
        ca = self.cls_of(a, st)
        self.implicit('binop', (K(name), a, b), st, node, frame)
        if name == 'add' and a == K(b'') and self.types(b, st) == frozenset(['bytes']):
            return [(b, st)]
        if name == 'mul' and a[0] == 'ref' and st.heap.get(a[1], {}).get('__cls__') == 'list':
            o2 = dict(st.heap[a[1]])
            ref = st.alloc(__cls__='list', __elt__=o2.get('__elt__'), __const__=None, __site__=getattr(node, 'lineno', 0))
            return [(ref, st)]
        if name == 'add' and a[0] == 'ref' and st.heap.get(a[1], {}).get('__cls__') == 'list':
            ref = st.alloc(__cls__='list', __const__=None, __elt__=None, __site__=getattr(node, 'lineno', 0))
            return [(ref, st)]
        return [(op(name, a, b), st)]

    # -- attribute / subscript
    def e_Attribute(self, e, st, frame):
        out = []
        for o, s in self.ev(e.value, st, frame):
            out += self.getattr(self.resolve(o, s), e.attr, s, e, frame)
        return out

    def getattr(self, o, attr, st, node, frame):
        if attr == '__dict__' and o[0] == 'ref' and isinstance(self.cls_of(o, st), ClassInfo):
            return [(op('objdict', o), st)]
        r = self.h.getattr(self, st, o, attr, node, frame)
        if r is not None:
            return r
        t = o[0]
        if t == 'mod':
            if attr in o[1].env:
                return [(wrap(o[1].env[attr], '%s.%s' % (o[1].name, attr)), st)]
            return [(('sym', 'modattr:%s.%s' % (o[1].name, attr), None), st)]
        if t == 'ext':
            if o[1] == 'sys' and attr == 'version_info':
                return [(tup(K(3), K(12), K(3)), st)]
            if o[1] == 'sys' and attr == 'platform':
                return [(K('linux'), st)]
            return [(('ext', o[1] + '.' + attr), st)]
        if t == 'cls':
            if attr == '__name__':
                return [(K(o[1].name), st)]
            v, ow = o[1].lookup(attr)
            if ow is None:
                if attr == '__class__':
                    return [(('ext', 'builtins.type'), st)]
                self.implicit('noattr', (o, K(attr)), st, node, frame)
                return [(op('attr', o, K(attr)), st)]
            dyn = self.class_dynamic(o[1], attr)
            if dyn is not None:
                return [(dyn, st)]
            return [(self.bind_attr(v, ow, o, attr, True), st)]
        if t == 'super':
            v, ow = o[2].lookup(attr, after=o[3])
            if isinstance(v, FuncInfo):
                return [(('fn', v, o[1]), st)]
            if isinstance(v, PropertyInfo):
                return self.invoke(('fn', v.fget, o[1]), [], {}, st, node, frame)
            if ow is not None:
                return [(wrap(v, ow.qual + '.' + attr), st)]
            return [(('sym', 'superattr:' + attr, None), st)]
        cls = self.cls_of(o, st)
        if cls is not None:
            if attr == '__class__':
                # exact only for objects whose dynamic class is fixed by the analysis
                return [(('cls', cls), st)]
            if t == 'ref' and attr in st.heap[o[1]]:
                return [(self.resolve(st.heap[o[1]][attr], st), st)]
            if t == 'const_inst' and attr in o[1].attrs:
                return [(wrap(o[1].attrs[attr], attr), st)]
            v, ow = cls.lookup(attr)
            if isinstance(v, PropertyInfo):
                return self.invoke(('fn', v.fget, o), [], {}, st, node, frame)
            if isinstance(v, FuncInfo):
                if v.kind == 'classmethod':
                    return [(('fn', v, ('cls', cls)), st)]
                if v.kind == 'staticmethod':
                    return [(('fn', v, None), st)]
                return [(('fn', v, o), st)]
            if t == 'ref':
                kind = st.heap[o[1]].get('__state__', 'entry')
                if kind == 'fresh':
                    if ow is not None:
                        return [(wrap(v, ow.qual + '.' + attr), st)]
                else:
                    ef = self.h.entry_field(self, st, o[1], attr, frame)
                    if ef is not None:
                        return [(self.resolve(ef, st), st)]
                    if ow is not None and not self.instance_attr(attr):
                        dyn = self.class_dynamic(cls, attr)
                        return [(dyn if dyn is not None else wrap(v, ow.qual + '.' + attr), st)]
                if ow is None and not self.instance_attr(attr):
                    self.implicit('noattr', (o, K(attr)), st, node, frame)
                sym = ('sym', '%s.%s@0' % (o[1], attr), self.attr_types(attr))
                return [(self.resolve(sym, st), st)]
            if ow is not None and not self.instance_attr(attr):
                return [(wrap(v, ow.qual + '.' + attr), st)]
            return [(self.resolve(op('attr', o, K(attr)), st), st)]
        if t in ('k', 'tup', 'sc') or (t == 'ref'):
            return [(('bmeth', o, attr), st)]
        self.implicit('attr', (o, K(attr)), st, node, frame)
        return [(self.resolve(op('attr', o, K(attr)), st), st)]

    def attr_types(self, attr):
        return None

    def class_dynamic(self, cls, attr):
        """Class attributes computed by class setup code rather than by the class body."""
        if attr in ('_reverse_map', '_field_map', '_field_ids', '_precomputed_specs', '_id_map', '_name_map', '_size', '_oid_nums'):
            t = {'_reverse_map': 'dict', '_field_map': 'dict', '_id_map': 'dict', '_name_map': 'dict', '_size': 'int',
                 '_precomputed_specs': 'list'}.get(attr)
            if attr == '_reverse_map' and not cls.get('_map'):
                return None
            if attr == '_oid_nums' and not cls.get('_oid_pair'):
                return None
            return ('sym', 'cls:%s.%s' % (cls.qual, attr), frozenset([t]) if t else None)
        return None

    def bind_attr(self, v, owner, o, attr, from_cls):
        if isinstance(v, FuncInfo):
            if v.kind == 'classmethod':
                return ('fn', v, o)
            return ('fn', v, None)
        if isinstance(v, PropertyInfo):
            return ('sym', 'prop:' + attr, None)
        return wrap(v, owner.qual + '.' + attr)

    _inst_attrs = None

    def instance_attr(self, attr):
        """Is the attribute assigned on instances anywhere in the package?"""
        if self._inst_attrs is None:
            s = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        b = n.value
                        if isinstance(b, ast.Name) and (b.id == 'cls' or b.id in m.env and isinstance(m.env.get(b.id), ClassInfo)):
                            continue
                        if isinstance(b, ast.Attribute) and b.attr == '__class__':
                            continue
                        s.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                        a = n.args[1]
                        if isinstance(a, ast.Constant):
                            s.add(a.value)
            type(self)._inst_attrs = None
            self._inst_attrs = s
        return attr in self._inst_attrs

    def e_Subscript(self, e, st, frame):
        out = []
        for o, s in self.ev(e.value, st, frame):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                cur = [((), s)]
                for p in parts:
                    nxt = []
                    for vs, s2 in cur:
                        if p is None:
                            nxt.append((vs + (NONE,), s2))
                        else:
                            for v, s3 in self.ev(p, s2, frame):
                                nxt.append((vs + (self.resolve(v, s3),), s3))
                    cur = nxt
                for vs, s2 in cur:
                    out += self.slice(self.resolve(o, s2), vs, s2, e, frame)
                continue
            for k, s2 in self.ev(e.slice, s, frame):
                out += self.getitem(self.resolve(o, s2), self.resolve(k, s2), s2, e, frame)
        return out

    def slice(self, o, parts, st, node, frame):
        if all(is_k(p) for p in parts):
            sl = slice(*[p[2] for p in parts])
            if is_k(o) and o[1] in ('str', 'bytes'):
                return [(K(o[2][sl]), st)]
            if o[0] == 'tup':
                return [(('tup', o[1][sl]), st)]
        self.implicit('slice', (o,) + tuple(parts), st, node, frame)
        return [(op('slice', o, *parts), st)]

    def getitem(self, o, k, st, node, frame):
        if o[0] == 'op' and o[1] == 'objdict' and is_k(k):
            return self.getattr(o[2], k[2], st, node, frame)
        r = self.h.getitem(self, st, o, k, node, frame)
        if r is not None:
            return r
        if is_k(k):
            if o[0] == 'tup' and isinstance(k[2], int):
                if -len(o[1]) <= k[2] < len(o[1]):
                    return [(o[1][k[2]], st)]
                frame.raises.append(('IndexError', st.fork(), node))
                return []
            if o[0] == 'sc':
                try:
                    return [(wrap(o[1].obj[k[2]], o[1].label), st)]
                except KeyError:
                    frame.raises.append(('KeyError', st.fork(), node))
                    return []
                except IndexError:
                    frame.raises.append(('IndexError', st.fork(), node))
                    return []
                except TypeError:
                    pass
            if is_k(o) and o[1] in ('str', 'bytes') and isinstance(k[2], int):
                try:
                    return [(K(o[2][k[2]]), st)]
                except IndexError:
                    frame.raises.append(('IndexError', st.fork(), node))
                    return []
            if o[0] == 'ref' and o[1] in st.heap:
                ob = st.heap[o[1]]
                if ('key', k) in ob:
                    return [(ob[('key', k)], st)]
                c = ob.get('__const__')
                if c is not None and isinstance(k[2], int) and -len(c) <= k[2] < len(c):
                    return [(c[k[2]], st)]
                if ob.get('__keys__') is not None and ob.get('__cls__') == 'dict':
                    frame.raises.append(('KeyError', st.fork(), node))
                    return []
        elif is_const(k):
            if o[0] == 'sc':
                try:
                    return [(wrap(o[1].obj[plain_const(k)], o[1].label), st)]
                except (KeyError, TypeError, IndexError):
                    pass
            if o[0] == 'ref' and o[1] in st.heap:
                ob = st.heap[o[1]]
                if ('key', k) in ob:
                    return [(ob[('key', k)], st)]
                if ob.get('__keys__') is not None and ob.get('__cls__') == 'dict':
                    frame.raises.append(('KeyError', st.fork(), node))
                    return []
        cls = self.cls_of(o, st)
        if cls is not None and cls.method('__getitem__') is not None:
            return self.call_bound(cls, '__getitem__', o, [k], st, node, frame)
        if o == NONE:
            frame.raises.append(('TypeError', st.fork(), node))
            return []
        self.implicit('getitem', (o, k), st, node, frame)
        if o[0] == 'ref' and o[1] in st.heap and st.heap[o[1]].get('__elt__') is not None:
            e = st.heap[o[1]]['__elt__']
            if e[0] not in ('k',):
                return [(e, st)]
        return [(self.resolve(op('index', o, k), st), st)]

    # -- calls
    def e_Call(self, e, st, frame):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            return self.do_super(e, st, frame)
        out = []
        for fn, s in self.ev(e.func, st, frame):
            for args, s2 in self.ev_list(e.args, s, frame):
                cur = [({}, s2)]
                for k in e.keywords:
                    nxt = []
                    for kw, s3 in cur:
                        for v, s4 in self.ev(k.value, s3, frame):
                            kw2 = dict(kw)
                            if k.arg is None:
                                v = self.resolve(v, s4)
                                known = None
                                if v[0] == 'ref' and s4.heap.get(v[1], {}).get('__keys__') is not None:
                                    ob = s4.heap[v[1]]
                                    known = dict((kk[1][2], vv) for kk, vv in ob.items() if isinstance(kk, tuple) and kk[0] == 'key')
                                elif v[0] == 'sc' and isinstance(v[1].obj, dict):
                                    known = dict((a, wrap(b, v[1].label)) for a, b in v[1].obj.items() if isinstance(a, str))
                                if known is not None:
                                    kw2.update(known)
                                else:
                                    kw2['**'] = v
                            else:
                                kw2[k.arg] = v
                            nxt.append((kw2, s4))
                    cur = nxt
                for kw, s3 in cur:
                    out += self.invoke(self.resolve(fn, s3), list(args), kw, s3, e, frame)
        return out

    def do_super(self, e, st, frame):
        owner = None
        f = frame
        owner = frame.fi.cls
        first = None
        if e.args:
            out = []
            for vs, s in self.ev_list(e.args, st, frame):
                if vs[0][0] == 'cls':
                    cls = self.cls_of(vs[1], s) if len(vs) > 1 else None
                    if cls is None and len(vs) > 1 and vs[1][0] == 'cls':
                        cls = vs[1][1]
                    if cls is not None and vs[0][1] in cls.mro:
                        out.append((('super', vs[1], cls, vs[0][1]), s))
                        continue
                out.append((('sym', 'super', None), s))
            return out
        params = frame.fi.params()
        if owner is not None and params and params[0] in st.env:
            o = st.env[params[0]]
            cls = self.cls_of(o, st)
            if cls is None and o[0] == 'cls':
                cls = o[1]
            if cls is not None and owner in cls.mro:
                return [(('super', o, cls, owner), st)]
        return [(('sym', 'super', None), st)]

    def call_bound(self, cls, name, obj, args, st, node, frame):
        v, ow = cls.lookup(name)
        return self.invoke(('fn', v, obj), args, {}, st, node, frame)

    def recursive(self, fi, frame):
        return any(f.fi is fi for f in frame.stack())

    def invoke(self, fn, args, kwargs, st, node, frame):
        """Call; returns [(value, state)], raising paths go to frame.raises."""
        self.tick()
        r = self.h.call(self, st, fn, args, kwargs, node, frame)
        if r is not None:
            return r
        if fn[0] == 'fn':
            fi, bound = fn[1], fn[2]
            if frame.depth < self.h.inline_depth and not self.too_recursive(fi, frame) and self.h.inline(self, fi, bound, frame):
                a = ([bound] if bound is not None else []) + list(args)
                frame.live_env = st.env
                outs = self.call_function(fi, a, kwargs, st, node, frame)
                res = []
                for o in outs:
                    if o.kind == 'return':
                        res.append((o.val, o.st))
                    elif o.kind == 'raise':
                        frame.raises.append((o.val, o.st, o.node or node))
                return self.dedupe(res) if len(res) > 8 else res
            self.opaque.add(fi.qual)
            args = list(args) + [op('kwarg', K(k), v) for k, v in sorted(kwargs.items())]
            self.implicit('opaque', (fn,) + tuple(args), st, node, frame)
            return [(op('packcall', fi.qual, *( ([bound] if bound is not None else []) + args)), st)]
        if fn[0] == 'cls':
            return self.construct(fn[1], args, kwargs, st, node, frame)
        if fn[0] == 'bmeth':
            return self.builtin_method(fn[1], fn[2], args, kwargs, st, node, frame)
        if fn[0] == 'ext':
            return self.ext_call(fn[1], args, kwargs, st, node, frame)
        if fn[0] == 'op' and fn[1] == 'attr' and is_k(fn[3]):
            return self.builtin_method(fn[2], fn[3][2], args, kwargs, st, node, frame)
        cls = self.cls_of(fn, st)
        if cls is not None and cls.method('__call__') is not None:
            return self.call_bound(cls, '__call__', fn, args, st, node, frame)
        args = list(args) + [op('kwarg', K(k), v) for k, v in sorted(kwargs.items())]
        self.implicit('call', (fn,) + tuple(args), st, node, frame)
        return [(op('call', fn, *args), st)]

    def too_recursive(self, fi, frame):
        return sum(1 for f in frame.stack() if f.fi is fi) >= self.h.max_recursion

    def construct(self, cls, args, kwargs, st, node, frame):
        ref = st.alloc(__cls__=cls, __state__='fresh', __site__=getattr(node, 'lineno', 0))
        init = cls.method('__init__')
        if init is None:
            return [(ref, st)]
        rs = self.invoke(('fn', init, ref), args, kwargs, st, node, frame)
        return [(ref, s) for _, s in rs]

    _MUTATORS = frozenset(['append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault',
                           'sort', 'reverse', 'popitem', '__setitem__', '__delitem__', 'move_to_end'])

    def builtin_method(self, o, name, args, kwargs, st, node, frame):
        o = self.resolve(o, st)
        args = [self.resolve(a, st) for a in args]
        if is_k(o) and o[2] is not None and all(is_const(a) for a in args) and not kwargs and \
                (name != 'format' or all(is_k(a) and isinstance(a[2], (str, int)) for a in args)):
            try:
                r = getattr(o[2], name)(*[plain_const(a) for a in args])
                if r is None or isinstance(r, (str, bytes, int, bool)):
                    return [(K(r), st)]
                if isinstance(r, tuple):
                    return [(wrap(r), st)]
                if isinstance(r, list):
                    return [(self.new_container('list', tuple(K(x) for x in r), st, node), st)]
            except AttributeError:
                frame.raises.append(('AttributeError', st.fork(), node))
                return []
            except Exception as ex:
                frame.raises.append((type(ex).__name__, st.fork(), node))
                return []
        if o == NONE:
            frame.raises.append(('AttributeError', st.fork(), node))
            return []
        if is_k(o) and name == 'join' and len(args) == 1 and not is_k(args[0]):
            c = self.concrete_iter(args[0], st)
            if c is not None and all(is_k(x) and type(x[2]) is type(o[2]) for x in c):
                return [(K(o[2].join(x[2] for x in c)), st)]
        if o[0] == 'sc':
            ob = o[1].obj
            if isinstance(ob, dict) and name == 'get' and args and is_k(args[0]):
                if args[0][2] in ob:
                    return [(wrap(ob[args[0][2]], o[1].label), st)]
                return [(args[1] if len(args) > 1 else NONE, st)]
            if isinstance(ob, dict) and name in ('items', 'keys', 'values') and len(ob) <= self.h.unroll:
                items = {'items': lambda: [tup(wrap(k), wrap(v, o[1].label)) for k, v in ob.items()],
                         'keys': lambda: [wrap(k) for k in ob], 'values': lambda: [wrap(v, o[1].label) for v in ob.values()]}[name]()
                return [(self.new_container('list', tuple(items), st, node), st)]
        if o[0] == 'ref' and o[1] in st.heap:
            ob = st.heap[o[1]]
            if ob.get('__cls__') == 'dict' and name == 'get' and args and is_const(args[0]):
                if ('key', args[0]) in ob:
                    return [(ob[('key', args[0])], st)]
                if ob.get('__keys__') is not None and args[0] not in ob['__keys__']:
                    return [(args[1] if len(args) > 1 else NONE, st)]
            if ob.get('__cls__') == 'dict' and name == 'items' and ob.get('__keys__') is not None and len(ob['__keys__']) <= self.h.unroll:
                items = [tup(k, ob.get(('key', k), op('index', o, k))) for k in sorted(ob['__keys__'], key=repr)]
                return [(self.new_container('list', tuple(items), st, node), st)]
            if ob.get('__cls__') == 'BytesIO' and name == 'getvalue':
                return [(op('typed', op('buf', o, ob.get('__elt__') or NONE), frozenset(['bytes'])), st)]
        if name in self._MUTATORS and (o[0] in ('ref', 'sc') or not (self.types(o, st) or frozenset()) & frozenset(['str', 'bytes', 'int'])):
            self.implicit('mutator', (o, K(name)) + tuple(args), st, node, frame)
            self.mutate(o, name, args, st, node, frame)
            if name in ('append', 'extend', 'insert', 'remove', 'clear', 'update', 'add', 'discard', 'sort', 'reverse'):
                return [(NONE, st)]
            return [(op('meth', o, K(name), *args), st)]
        if o[0] == 'ref' and name == 'write' and st.heap.get(o[1], {}).get('__cls__') == 'BytesIO':
            self.mutate(o, name, args, st, node, frame)
            return [(NONE, st)]
        ex = self.h.call_ext(self, st, name, o, args, kwargs, node, frame) if hasattr(self.h, 'call_ext') else None
        if ex is not None:
            return ex
        self.implicit('meth', (o, K(name)) + tuple(args), st, node, frame)
        return [(op('meth', o, K(name), *(list(args) + [op('kwarg', K(k), v) for k, v in sorted(kwargs.items())])), st)]

    def ext_call(self, name, args, kwargs, st, node, frame):
        n = name[9:] if name.startswith('builtins.') else name
        args = [self.resolve(a, st) for a in args]
        if n == 'isinstance' and len(args) == 2:
            c = op('isinstance', args[0], args[1])
            r = self.truth(c, st)
            return [(K(r) if r is not None else c, st)]
        if n == 'issubclass' and len(args) == 2:
            c = op('issubclass', args[0], args[1])
            r = self.truth(c, st)
            return [(K(r) if r is not None else c, st)]
        if n == 'hasattr' and len(args) == 2:
            cls = self.cls_of(args[0], st)
            if cls is None and args[0][0] == 'cls':
                cls = args[0][1]
            if cls is not None and is_k(args[1]):
                return [(K(cls.has(args[1][2]) or self.instance_has(cls, args[1][2])), st)]
            return [(op('hasattr', *args), st)]
        if n == 'getattr' and len(args) >= 2 and is_k(args[1]):
            if len(args) == 3:
                cls = self.cls_of(args[0], st)
                if cls is not None and not cls.has(args[1][2]):
                    return [(args[2], st)]
            return self.getattr(args[0], args[1][2], st, node, frame)
        if n == 'setattr' and len(args) == 3 and is_k(args[1]):
            return [(NONE, s) for s in self.store_attr(args[0], args[1][2], args[2], st, node, frame)]
        if n == 'setattr' and len(args) == 3:
            self.h.on_store(self, st, args[0], op('dynattr', args[1]), args[2], node, frame)
            return [(NONE, st)]
        if n == 'type' and len(args) == 1:
            cls = self.cls_of(args[0], st)
            if cls is not None:
                return [(('cls', cls), st)]
            return [(self.resolve(op('attr', args[0], K('__class__')), st), st)]
        if n in ('list', 'set', 'dict', 'bytearray', 'collections.OrderedDict', 'frozenset'):
            kind = {'collections.OrderedDict': 'dict', 'frozenset': 'frozenset'}.get(n, n)
            if not args:
                ref = st.alloc(__cls__=kind, __const__=() if kind != 'dict' else None, __keys__=frozenset() if kind == 'dict' else None,
                               __site__=getattr(node, 'lineno', 0), __len__=K(0), __elt__=None)
                return [(ref, st)]
            src = args[0]
            c = self.concrete_iter(src, st)
            rs = [(src, st)]
            cls = self.cls_of(src, st)
            if cls is not None and cls.method('__iter__') is not None:
                rs = self.call_bound(cls, '__iter__', src, [], st, node, frame)
            out = []
            for s0, s2 in rs:
                self.implicit('iter', (src,), s2, node, frame)
                ref = s2.alloc(__cls__=kind, __const__=tuple(c) if c is not None and kind != 'dict' else None, __src__=src,
                               __elt__=self.elem(s0, s2, node, frame) if c is None else (self.join_vals(c) if len(set(c)) > 1 else (c[0] if c else None)),
                               __site__=getattr(node, 'lineno', 0), __keys__=None)
                out.append((ref, s2))
            return out
        if n == 'io.BytesIO' or n == 'cStringIO.StringIO':
            return [(st.alloc(__cls__='BytesIO', __elt__=None, __site__=getattr(node, 'lineno', 0)), st)]
        if n in ('str', 'bytes', 'int', 'repr', 'len', 'iter', 'bool') and args:
            m = {'str': '__str__', 'bytes': '__bytes__', 'int': '__int__', 'repr': '__repr__', 'len': '__len__', 'iter': '__iter__',
                 'bool': '__bool__'}[n]
            cls = self.cls_of(args[0], st)
            if cls is not None and cls.method(m) is not None and not self.recursive(cls.method(m), frame):
                return self.call_bound(cls, m, args[0], [], st, node, frame)
        if n == 'vars' and len(args) == 1 and args[0][0] == 'ref':
            return self.getattr(args[0], '__dict__', st, node, frame)
        if n == 'bool' and len(args) == 1:
            r = self.truth(args[0], st)
            return [(K(r) if r is not None else op('truth', args[0]), st)]
        if n == 'len' and len(args) == 1:
            a = args[0]
            if a[0] == 'tup':
                return [(K(len(a[1])), st)]
            if a[0] == 'sc':
                return [(K(len(a[1].obj)), st)]
            if is_k(a) and a[1] in ('str', 'bytes'):
                return [(K(len(a[2])), st)]
            if a[0] == 'ref' and st.heap.get(a[1], {}).get('__const__') is not None:
                return [(K(len(st.heap[a[1]]['__const__'])), st)]
            self.implicit('len', (a,), st, node, frame)
            return [(self.resolve(op('len', a), st), st)]
        if n in ('int', 'str', 'ord', 'chr', 'abs', 'min', 'max', 'bytes', 'tuple', 'round', 'float', 'repr', 'hex', 'math.ceil') and args \
                and all(is_k(a) for a in args) and not kwargs:
            import math
            try:
                f = {'int': int, 'str': str, 'ord': ord, 'chr': chr, 'abs': abs, 'min': min, 'max': max, 'bytes': bytes,
                     'tuple': tuple, 'round': round, 'float': float, 'repr': repr, 'hex': hex, 'math.ceil': math.ceil}[n]
                r = f(*[a[2] for a in args])
                return [(wrap(r), st)]
            except Exception as ex:
                frame.raises.append((type(ex).__name__, st.fork(), node))
                return []
        if n == 'tuple' and len(args) == 1:
            c = self.concrete_iter(args[0], st)
            if c is not None:
                return [(('tup', tuple(c)), st)]
        if n == 'int' and len(args) == 1 and self.types(args[0], st) == frozenset(['int']):
            return [(args[0], st)]
        if n in _EXC_NAMES:
            return [(('op', 'exc', K(n)), st)]
        if n in ('copy.copy', 'copy.deepcopy') and args:
            cls = self.cls_of(args[0], st)
            m = '__copy__' if n == 'copy.copy' else '__deepcopy__'
            if cls is not None and cls.method(m) is not None and args[0][0] == 'ref':
                return self.call_bound(cls, m, args[0], [] if n == 'copy.copy' else [('sym', 'memo', frozenset(['dict']))], st, node, frame)
        if n == 'map' and args and args[0][0] in ('fn', 'cls') :
            pass
        if n in ('sorted',) and args:
            for key in ('key',):
                if key in kwargs and kwargs[key][0] == 'fn':
                    pass
        if n in ('object.__setattr__', 'builtins.object.__setattr__') and len(args) == 3 and is_k(args[1]):
            return [(NONE, s) for s in self.store_attr(args[0], args[1][2], args[2], st, node, frame)]
        self.implicit('ext', (('ext', n),) + tuple(args), st, node, frame)
        return [(self.resolve(op('builtin', K(n), *(list(args) + [op('kwarg', K(k), v) for k, v in sorted(kwargs.items())])), st), st)]

    def instance_has(self, cls, attr):
        return False

    # -- comprehensions
    def comp_known(self, e, elts, i, st, frame):
        """The items a comprehension yields, with states, if everything it iterates over is known; None otherwise."""
        if i == len(e.generators):
            return [((v if len(elts) > 1 else v[0],), s) for v, s in self.ev_list(elts, st, frame)]
        g = e.generators[i]
        out = []
        for it, s in self.ev(g.iter, st, frame):
            items = self.concrete_iter(self.resolve(it, s), s)
            if items is None:
                return None
            cur = [((), s)]
            for x in items:
                nxt = []
                for vs, s2 in cur:
                    for s3 in self.assign(g.target, x, s2.fork(), frame, e):
                        kept = [s3]
                        for c in g.ifs:
                            tests = [r for s5 in kept for r in self.ev_cond(c, s5, frame)]
                            nxt += [(vs, s5) for t, s5 in tests if not t]
                            kept = [s5 for t, s5 in tests if t]
                        for s5 in kept:
                            more = self.comp_known(e, elts, i + 1, s5, frame)
                            if more is None:
                                return None
                            nxt += [(vs + v, s4) for v, s4 in more]
                cur = nxt
            out += cur
        return out

    def comp(self, e, elts, st, frame, kind):
        env0 = dict(st.env)
        states = [st]
        conc = None
        if self.filters or len(e.generators) == 1 and not e.generators[0].ifs:
            out = self.comp_known(e, elts, 0, st, frame)
            if out is not None:
                res = []
                for vs, s in out:
                    s.env = dict((k, v) for k, v in s.env.items() if k in env0 or k.startswith('#'))
                    for k in env0:
                        s.env[k] = env0[k]
                    res.append((vs, s, True))
                return res
        for g in e.generators:
            nxt = []
            for s in states:
                for it, s2 in self.ev(g.iter, s, frame):
                    for it2, s3 in self.iterate(self.resolve(it, s2), s2, e, frame):
                        for s4 in self.assign(g.target, self.elem(it2, s3, e, frame), s3, frame, e):
                            cur = [s4]
                            for c in g.ifs:
                                cur = [s6 for s5 in cur for t, s6 in self.ev_cond(c, s5, frame) if t]
                            nxt += cur
            states = nxt
        res = []
        for s in states:
            for vs, s2 in self.ev_list(elts, s, frame):
                s2.env = dict(env0)
                res.append((vs if len(elts) > 1 else vs[0], s2, False))
        # zero-iteration path
        z = st.fork()
        z.env = dict(env0)
        if not res:
            res.append((NONE, z, False))
        return res

    filters = False             # unroll comprehensions that have conditions

    def mkcomp(self, e, elts, st, frame, kind):
        out = []
        for v, s, conc in self.comp(e, elts, st, frame, kind):
            if conc:
                if kind == 'dict':
                    ref = s.alloc(__cls__='dict', __site__=e.lineno, __keys__=None, __elt__=None)
                else:
                    ref = self.new_container(kind, v, s, e)
            else:
                elt = v
                ref = s.alloc(__cls__=kind, __site__=e.lineno, __elt__=elt, __const__=None, __keys__=None)
            out.append((ref, s))
        return self.dedupe(out)

    def e_ListComp(self, e, st, frame):
        return self.mkcomp(e, [e.elt], st, frame, 'list')

    def e_GeneratorExp(self, e, st, frame):
        return self.mkcomp(e, [e.elt], st, frame, 'list')

    def e_SetComp(self, e, st, frame):
        return self.mkcomp(e, [e.elt], st, frame, 'set')

    def e_DictComp(self, e, st, frame):
        return self.mkcomp(e, [e.key, e.value], st, frame, 'dict')

    def e_Yield(self, e, st, frame):
        if e.value is None:
            return [(NONE, st)]
        out = []
        for v, s in self.ev(e.value, st, frame):
            old = s.env.get('#yield')
            s.env['#yield'] = v if old in (None, v) else self.join_vals([old, v])
            out.append((NONE, s))
        return out

    def e_NamedExpr(self, e, st, frame):
        out = []
        for v, s in self.ev(e.value, st, frame):
            for s2 in self.assign(e.target, v, s, frame, e):
                out.append((v, s2))
        return out

    def e_Starred(self, e, st, frame):
        return self.ev(e.value, st, frame)


_MISS = object()


def _mentions_loop(k):
    if not isinstance(k, tuple):
        return False
    if len(k) > 2 and k[0] == 'op' and k[1] in ('loop', 'elem', 'keyof', 'deep'):
        return True
    for x in k:
        if isinstance(x, tuple) and _mentions_loop(x):
            return True
    return False


_EXC_NAMES = frozenset(list(EXC_PARENTS) + ['BaseException', 'Exception'])
_METHOD_TYPES = {
    'encode': frozenset(['bytes']), 'decode': frozenset(['str']), 'lower': frozenset(['str']), 'upper': frozenset(['str']),
    'strip': None, 'split': frozenset(['list']), 'find': frozenset(['int']), 'startswith': frozenset(['bool']),
    'endswith': frozenset(['bool']), 'digest': frozenset(['bytes']), 'hexdigest': frozenset(['str']), 'keys': None,
    'strftime': frozenset(['str']), 'zfill': frozenset(['str']), 'bit_length': frozenset(['int']), 'getvalue': frozenset(['bytes']),
    'to_bytes': frozenset(['bytes']), 'groupdict': frozenset(['dict']),
}
_BUILTIN_TYPES = {
    'len': frozenset(['int']), 'int': frozenset(['int']), 'str': frozenset(['str']), 'repr': frozenset(['str']),
    'bytes': frozenset(['bytes']), 'tuple': frozenset(['tuple']), 'sorted': frozenset(['list']), 'ord': frozenset(['int']),
    'chr': frozenset(['str']), 'id': frozenset(['int']), 'hash': frozenset(['int']), 'format': frozenset(['str']),
    'reversed': None, 'binascii.hexlify': frozenset(['bytes']), 'any': frozenset(['bool']), 'all': frozenset(['bool']),
    'abs': None, 'range': frozenset(['range']), 'base64.b64encode': frozenset(['bytes']), 'callable': frozenset(['bool']),
}
_PACK_TYPES = {}
