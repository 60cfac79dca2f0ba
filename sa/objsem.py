"""Shared set-up for the object-state rules (M01, M02, ...)."""
from .model import ClassInfo, FuncInfo, PropertyInfo
from .flow import *

OPAQUE_MODULES = ('util', 'parser', '_iri', '_inet', '_errors', '_types', '_int', '_teletex_codec')
OPAQUE_FUNCS = frozenset(['core._parse_build', 'core._build', 'core._int_to_bit_tuple', 'core._basic_debug', 'core.load',
                          'core.unpickle_helper'])

# Fields that say how a value is tagged or how wide it must be encoded; they are
# not derived from the value and legitimately survive an assignment.
CONFIG_FIELDS = frozenset(['tag', 'class_', 'explicit', 'implicit', '_encoded_width', '_child_spec', '_bad_tag'])

ENTRY_TYPES = {
    '_header': frozenset(['bytes', 'NoneType']), '_trailer': frozenset(['bytes']),
    'contents': frozenset(['bytes', 'NoneType']), '_contents': frozenset(['bytes', 'NoneType']),
    '_indefinite': frozenset(['bool']), '_mutated': frozenset(['bool']), 'method': frozenset(['int']),
}


class ObjHooks(Hooks):
    """self ('s') is an object in an arbitrary reachable state."""
    max_states = 64

    def inline(self, ip, fi, bound, frame):
        if fi.qual in OPAQUE_FUNCS:
            return False
        if fi.module.name in OPAQUE_MODULES and not fi.qual.startswith('util.extended'):
            return False
        return True

    def entry_field(self, ip, st, oid, attr, frame):
        if ip.instance_attr(attr) and oid in self.entry_objs(st):
            return ('sym', '%s.%s@0' % (oid, attr), ENTRY_TYPES.get(attr))
        return None

    def entry_objs(self, st):
        return ('s', 'x')


def self_state(cls, mon=None):
    st = State(mon=mon)
    st.heap['s'] = {'__cls__': cls, '__state__': 'entry'}
    return st


SELF = ('ref', 's')


def entry_syms(v):
    """Names of entry fields of self a value depends on."""
    out = set()
    for d in deps(v):
        if d[0] == 'sym' and d[1].endswith('@0') and d[1].startswith('s.'):
            out.add(d[1][2:-2])
    return out


def fact_syms(facts):
    out = {}
    for k in facts:
        for s in _syms_in(k):
            out.setdefault(s, []).append(k)
    return out


def _syms_in(k, out=None):
    if out is None:
        out = set()
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'sym' and isinstance(k[1], str):
            if k[1].startswith('s.') and k[1].endswith('@0'):
                out.add(k[1][2:-2])
            return out
        for x in k:
            _syms_in(x, out)
    elif isinstance(k, frozenset):
        for x in k:
            _syms_in(x, out)
    return out


READER_DUNDERS = ('__unicode__', '__bytes__', '__int__', '__bool__', '__len__', '__str__', '__iter__', '__hash__')


def readers(cls, extra=()):
    """Argument-less read-only entry points of a class: (label, FuncInfo)."""
    out = {}
    for c in cls.mro:
        for n, v in c.attrs.items():
            if n in out:
                continue
            if isinstance(v, PropertyInfo):
                out[n] = v.fget
            elif isinstance(v, FuncInfo) and n in READER_DUNDERS:
                out[n] = v
    d = cls.method('dump')
    if d is not None:
        out['dump'] = d
    return sorted(out.items())


# ---------------------------------------------------------------- exceptions
NO_RAISE_FUNCS = frozenset([
    'parser._dump_header', '_errors.unwrap', '_types.type_name', 'util.int_from_bytes', 'core._int_to_bit_tuple',
    '_types.chr_cls', '_int.fill_width', 'core._basic_debug', 'util.timezone.__init__',
])
STR_RAISING = {'encode': 'UnicodeEncodeError', 'decode': 'UnicodeDecodeError', 'index': 'ValueError', 'rindex': 'ValueError',
               'format': 'KeyError'}
PLAIN = frozenset(['str', 'bytes', 'int', 'bool', 'float', 'tuple', 'list', 'set', 'dict', 'frozenset', 'NoneType', 'type'])


def may_raise(ip, st, what, info):
    """Exceptions an operation can raise, given what is known about its operands."""
    if what == 'opaque':
        fn = info[0]
        q = fn[1].qual
        if q in NO_RAISE_FUNCS:
            return ()
        if q == 'util.int_to_bytes':
            if info[1][0] == 'op' and info[1][1] == 'index' and info[1][2][0] == 'sym' and info[1][2][1].endswith('._reverse_map'):
                return ()       # registry tables hold integers here (checked by S01)
            width = None
            for a in info[1:]:
                if a[0] == 'op' and a[1] == 'kwarg' and a[2] == ('k', 'str', 'width'):
                    width = a[3]
            if len(info) > 3 and not (info[3][0] == 'op' and info[3][1] == 'kwarg'):
                width = info[3]
            ts = ip.types(info[1], st)
            if ts is not None and ts <= frozenset(['int', 'bool']) and (width is None or width == ('k', 'NoneType', None)):
                return ()
            return ('OverflowError',)
        return ('*',)
    if what == 'meth':
        o, name = info[0], info[1][2]
        ts = ip.types(o, st)
        if o[0] in ('k', 'tup', 'sc') or (ts is not None and all(isinstance(t, str) for t in ts) and ts <= PLAIN):
            if name in STR_RAISING:
                return (STR_RAISING[name],)
            return ()
        if o[0] == 'ref' and not isinstance(st.heap.get(o[1], {}).get('__cls__'), ClassInfo):
            return ()
        return ('*',)
    if what == 'ext':
        n = info[0][1]
        if n in ('int', 'float') and len(info) > 1:
            ts = ip.types(info[1], st)
            if ts is not None and ts <= frozenset(['int', 'bool', 'float']):
                return ()
            return ('ValueError',)
        if n in ('math.ceil', 'map', 'enumerate', 'range', 'len', 'zip', 'sorted', 'chr', 'ord', 'max', 'min', 'set', 'list',
                 'tuple', 'repr', 'str', 'hash', 'id', 'iter', 'reversed', 'isinstance', 'bytes', 'type', 'any', 'all', 'sum'):
            return ()
        return ('*',)
    if what in ('attr',):
        ts = ip.types(info[0], st)
        if ts is not None and ts <= PLAIN and 'NoneType' not in ts:
            return ()
        return ('*',)
    if what == 'getitem':
        o, k = info
        if st.facts.get(('op', 'in', k, o)) is True:
            return ()
        ts = ip.types(o, st)
        if ts == frozenset(['dict']):
            return ('KeyError',)
        if ts is not None and ts <= frozenset(['bytes', 'str', 'list', 'tuple']):
            return ('IndexError',)
        return ('*',)
    if what in ('construct', 'call'):
        return ('*',)
    if what == 'len':
        ts = ip.types(info[0], st)
        if ts is None:
            return ('TypeError',)
        return ()
    if what == 'iter':
        ts = ip.types(info[0], st)
        if ts is None:
            return ('TypeError',)
        return ()
    return ()


MUTATORS = ('set', '__setitem__', '__delitem__', 'append', 'extend', 'insert', 'pop', 'set_encoded_width')
READ_NAMES = ('native', 'dump', 'debug', 'copy', 'retag', 'untag', 'parsed', 'chosen', 'name')


def lazy_functions(cls):
    """Methods that reading reaches through self-calls, without passing through a mutator: their stores fill caches."""
    import ast
    start = []
    for c in cls.mro:
        for n, v in c.attrs.items():
            if isinstance(v, PropertyInfo):
                start.append(v.fget)
            elif isinstance(v, FuncInfo) and (n in READ_NAMES or (n.startswith('__') and n not in MUTATORS and n != '__init__')):
                start.append(v)
    seen = set()
    work = list(start)
    while work:
        f = work.pop()
        if f in seen or f is None:
            continue
        seen.add(f)
        params = f.params()
        me = params[0] if params else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if n.attr in MUTATORS:
                    continue
                for c in cls.mro:
                    v = c.attrs.get(n.attr)
                    if isinstance(v, FuncInfo):
                        work.append(v)
                    elif isinstance(v, PropertyInfo):
                        work.append(v.fget)
    return seen


def self_effects(cls, fi, lazy=frozenset(), seen=None):
    """Fields of self that a method stores to or mutates, transitively through self-calls (syntactic, conservative)."""
    import ast
    if seen is None:
        seen = set()
    if fi in seen or fi is None:
        return set()
    seen.add(fi)
    out = set()
    params = fi.params()
    me = params[0] if params else None

    def selfattr(n):
        return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me

    for n in ast.walk(fi.node):
        if selfattr(n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            for c in cls.mro:
                v = c.attrs.get(n.attr)
                if isinstance(v, FuncInfo):
                    out |= self_effects(cls, v, lazy, seen)
                    break
                if isinstance(v, PropertyInfo):
                    out |= self_effects(cls, v.fget, lazy, seen)
                    if isinstance(n.ctx, ast.Store) and v.fset is not None:
                        out |= self_effects(cls, v.fset, lazy, seen)
                    break
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and selfattr(n.value):
            out.add(n.value.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and selfattr(n.func.value) and n.func.attr in Interp._MUTATORS:
            out.add(n.func.value.attr)
        elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == me for a in n.args):
            # super-style calls Base.method(self, ...)
            if isinstance(n.func, ast.Attribute):
                for c in cls.mro:
                    v = c.attrs.get(n.func.attr)
                    if isinstance(v, FuncInfo):
                        out |= self_effects(cls, v, lazy, seen)
    return out


FILLED = {'children': frozenset(['list'])}


class EditHooks(ObjHooks):
    """Interprets editing code; decoding helpers that only fill caches are summarised."""

    def __init__(self, cls, lazy):
        self.cls, self.lazy = cls, lazy
        self._eff = {}

    def effects(self, fi):
        if fi not in self._eff:
            self._eff[fi] = self_effects(self.cls, fi)
        return self._eff[fi]

    def entry_field(self, ip, st, oid, attr, frame):
        v = ObjHooks.entry_field(self, ip, st, oid, attr, frame)
        if v is not None and oid == 's':
            if attr == 'children':
                return ('sym', v[1], frozenset(['list', 'NoneType']))
            if attr == '_native':
                names = set(c.name for c in self.cls.mro)
                if 'SequenceOf' in names:
                    return ('sym', v[1], frozenset(['list', 'NoneType']))
                if 'Sequence' in names:
                    return ('sym', v[1], frozenset(['dict', 'NoneType']))
        return v

    def is_lazy_call(self, fi, bound):
        return bound == SELF and fi in self.lazy and fi.node.name not in MUTATORS

    def inline(self, ip, fi, bound, frame):
        if not ObjHooks.inline(self, ip, fi, bound, frame):
            return False
        if fi.node.name in MUTATORS and bound == SELF:
            return True
        if bound == SELF:
            return bool(self.effects(fi)) and not self.is_lazy_call(fi, bound)
        return fi.cls is None and False

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[2] == SELF and self.is_lazy_call(fn[1], fn[2]):
            ip.implicit('opaque', (fn,) + tuple(args), st, node, frame)
            self.filled(st, fn[1])
            return [(op('packcall', fn[1].qual, SELF, *args), st)]
        return None

    def filled(self, st, fi):
        for f in self.effects(fi):
            if f in FILLED:
                cur = st.heap['s'].get(f)
                if cur is None or (cur[0] == 'sym' and cur[1].startswith('s.')):
                    st.setf('s', f, ('sym', 's.%s@0' % f, FILLED[f]))


def entry_deps(v, oid='s'):
    """Entry fields of one object a value is data-dependent on."""
    out = set()
    pre = oid + '.'
    for d in deps(v):
        if d[0] == 'sym' and d[1].startswith(pre) and d[1].endswith('@0'):
            out.add(d[1][len(pre):-2])
    return out
