"""Reading entry points of every class and their interpretation (used by the rules about reads: M05, M06)."""
import ast
from .flow import Interp, State, TooComplex, NONE, K, op, is_k
from .model import ClassInfo, FuncInfo, PropertyInfo
from .objsem import ObjHooks, SELF, MUTATORS, may_raise

OTHER = ('ref', 'x')
NOT_READS = frozenset(MUTATORS) | frozenset([
    'dump', 'copy', 'retag', 'untag', 'cast', 'validate', '__init__', '__copy__', '__deepcopy__', '__new__', 'load', 'parse', '__reduce__',
    '__getstate__', '__setstate__', 'contents'])
REENCODE = frozenset(['dump', 'contents', 'copy', 'retag', 'untag', '__copy__', '__deepcopy__'])
CONTAINER_READS = frozenset(['__getitem__', '__iter__', '__len__', '__contains__'])


def reads(cls):
    """(name, FuncInfo) of everything a user can call on a value that is not an edit, an encoding or a copy."""
    out = {}
    for c in cls.mro:
        for n, v in c.attrs.items():
            if n in out:
                continue
            if isinstance(v, PropertyInfo):
                out[n] = v.fget
            elif isinstance(v, FuncInfo):
                out[n] = v if v.kind == 'func' else None
            else:
                out[n] = None
    return sorted((n, f) for n, f in out.items() if f is not None and n not in NOT_READS and
                  (not n.startswith('_') or n.startswith('__') and n.endswith('__')))


def closure(cls, fi, stop=frozenset(), seen=None):
    """Methods and getters of cls reached from fi through self."""
    seen = set() if seen is None else seen
    work = [fi]
    while work:
        f = work.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        ps = f.params()
        me = ps[0] if ps else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr not in stop:
                v = cls.lookup(n.attr)[0]
                if isinstance(v, FuncInfo):
                    work.append(v)
                elif isinstance(v, PropertyInfo):
                    work.append(v.fget)
    return seen


def encoding_fields(cls):
    """Instance fields that the encoding is computed from: everything the encoder reads on the object."""
    out = set()
    start = [cls.method('dump')]
    v = cls.lookup('contents')[0]
    if isinstance(v, PropertyInfo):
        start.append(v.fget)
    seen = set()
    for f in start:
        closure(cls, f, stop=frozenset(['native', 'set']), seen=seen)
    for f in seen:
        ps = f.params()
        me = ps[0] if ps else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                v, ow = cls.lookup(n.attr)
                if not isinstance(v, (FuncInfo, PropertyInfo)):
                    out.add(n.attr)
    return out | set(['contents', '_contents', '_header', '_trailer', 'tag', 'class_', 'method', 'explicit', 'implicit']) - \
        set(k for k in ('contents',) if isinstance(cls.lookup(k)[0], PropertyInfo))


def entry_points(prog, classes):
    """One class per distinct behaviour of each read: (class, name, function, number of classes sharing it)."""
    seen = {}
    for c in classes:
        for n, f in reads(c):
            cl = frozenset(closure(c, f, stop=REENCODE))
            sig = (n, f, cl, bool(c.get('_map')), c.get('_fields') is not None and bool(c.get('_fields')) and f.module.name == 'core')
            seen.setdefault(sig, []).append(c)
    out = []
    for (n, f, cl, _, _), cs in seen.items():
        own = [c for c in cs if f.cls is c]
        conc = [c for c in cs if isinstance(c.get('tag'), int)]
        out.append(((own or conc or cs)[0], n, f, len(cs)))
    return sorted(out, key=lambda x: (x[2].qual, x[0].qual, x[1]))


def reached(v):
    """Is the value a component (or a view) of an existing object, rather than something made by the reader?"""
    t = v[0]
    if t == 'sym':
        return v[1].endswith('@0') or v[1].startswith('arg')
    if t == 'ref':
        return v in (SELF, OTHER)
    if t != 'op':
        return False
    o = v[1]
    if o in ('attr', 'index', 'item', 'elem', 'typed', 'iter', 'slice'):
        return isinstance(v[2], tuple) and bool(v[2]) and isinstance(v[2][0], str) and reached(v[2])
    if o == 'meth':
        return is_k(v[3]) and v[3][2] in ('get', 'values', 'items', 'parse', 'keys', 'pop', 'setdefault') and reached(v[2])
    if o == 'phi':
        return any(isinstance(x, tuple) and x and isinstance(x[0], str) and reached(x) for x in v[2])
    return False


def about_entry(k):
    return k[0] == 'op' and k[1] == 'is' and k[2][0] == 'sym' and k[2][1].startswith('s.') and k[2][1].endswith('@0')


class Reading(ObjHooks):
    """self is 's', the other operand 'x'; components read by name are opaque values reached from them."""
    max_states = 64
    unroll = 6

    def __init__(self, cls, split=None):
        self.cls, self.split = cls, split

    def entry_field(self, ip, st, oid, attr, frame):
        v = ObjHooks.entry_field(self, ip, st, oid, attr, frame)
        if v is not None:
            if attr == 'children':
                return ('sym', v[1], frozenset(['list', 'NoneType']))
            if attr == '_native':
                names = set(c.name for c in self.cls.mro)
                if 'SequenceOf' in names:
                    return ('sym', v[1], frozenset(['list', 'NoneType']))
                if 'Sequence' in names:
                    return ('sym', v[1], frozenset(['dict', 'NoneType']))
        return v

    def inline(self, ip, fi, bound, frame):
        if not ObjHooks.inline(self, ip, fi, bound, frame):
            return False
        if bound in (SELF, OTHER):
            return True
        return fi.cls is None and fi.module.name not in ('core',)

    def getattr(self, ip, st, o, attr, node, frame):
        # one arbitrary component stands for all of them
        if attr in ('_fields', '_alternatives') and o in (SELF, OTHER):
            return [(('sym', 'cls:' + attr, frozenset(['list'])), st)]
        return None

    def getitem(self, ip, st, o, k, node, frame):
        if o in (SELF, OTHER) and not (frame.fi.node.name in CONTAINER_READS and frame.fi.module.name == 'core'):
            ip.implicit('getitem', (o, k), st, node, frame)
            return [(op('item', o, k), st)]
        return None

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'cls' and isinstance(fn[1], ClassInfo):
            ip.implicit('construct', (fn,) + tuple(args), st, node, frame)
            return [(op('new', fn[1].qual, *args), st)]
        if fn[0] == 'fn' and fn[2] in (SELF, OTHER):
            n = fn[1].name
            if self.split is not None and frame is not None and (n not in REENCODE or n == 'contents' and args):
                # analysed on its own, knowing about the fields what every call knows
                fs = frozenset((k, v) for k, v in st.facts.items() if about_entry(k))
                self.split[fn[1]] = fs if fn[1] not in self.split else self.split[fn[1]] & fs
                ip.implicit('opaque', (fn,) + tuple(args), st, node, frame)
                return [(op('item', fn[2], K(n), *args), st)]
            if n in REENCODE and not (n == 'contents' and args):
                ip.implicit('opaque', (fn,) + tuple(args), st, node, frame)
                return [(op('encoded', fn[2], fn[1].name), st)]
            if n in CONTAINER_READS and frame is not None and frame.fi.node.name not in CONTAINER_READS:
                ip.implicit('opaque', (fn,) + tuple(args), st, node, frame)
                return [(op('item', fn[2], *args), st)]
        return None

    def implicit(self, ip, st, what, info, node, frame):
        return may_raise(ip, st, what, info)


def start(cls, name, fi, other=True):
    """(args, state) for one read."""
    st = State()
    st.heap['s'] = {'__cls__': cls, '__state__': 'entry'}
    args = [SELF]
    ps = fi.params()[1:]
    for i, a in enumerate(ps):
        if i == 0 and name in ('__eq__', '__ne__') and other:
            st.heap['x'] = {'__cls__': cls, '__state__': 'entry'}
            args.append(OTHER)
        else:
            args.append(('sym', 'arg%d' % i, None))
    return args, st
