"""Typed interpretation of accessors: every component read is given the type its structure declares.

A decoded value is a node: a symbol whose name is its path from the object the accessor was called on and whose
type is the exact class.  Reading a component forks on what the definition allows (present or absent, and for an
open component each type its identifier can select); the choice is remembered as a fact, so that repeated reads
of the same component, and the identifier that selected its type, agree along a path."""
import ast
import re
from .model import ClassInfo, FuncInfo, PropertyInfo, InstStub, Unk, AnalysisBroken, _Raise, _Unknown
from .flow import Hooks, Interp, State, NONE, TRUE, FALSE, K, is_k, op, wrap, plain_const
from . import selector

SELF = ('ref', 's')
UNK_NAME = '\0unrecognised'
CORE_VALUES = {'dump': 'bytes', 'debug': 'NoneType', '__len__': 'int', '__eq__': 'bool', '__ne__': 'bool', '__contains__': 'bool',
               '__str__': 'str', '__unicode__': 'str', '__repr__': 'str', '__bytes__': 'bytes', '__hash__': 'int', '__int__': 'int'}
SAME = frozenset(['copy', 'retag', 'untag', '__copy__', '__deepcopy__'])
NATIVE = {'Integer': 'int', 'Boolean': 'bool', 'OctetString': 'bytes', 'BitString': 'tuple', 'ObjectIdentifier': 'str', 'Sequence': 'dict',
          'Set': 'dict', 'SequenceOf': 'list', 'SetOf': 'list', 'AbstractString': 'str', 'Enumerated': 'str', 'OctetBitString': 'bytes',
          'IntegerBitString': 'int', 'IntegerOctetString': 'int', 'Null': 'NoneType'}


class Typed(Interp):
    def truth(self, v, st):
        v = self.resolve(v, st)
        n = self.h.node(self, st, v)
        if n is not None:
            f = st.facts.get(('op', 'truth', v))
            if f is not None:
                return f
            cls = n[0]
            if not any(cls.has(m) for m in ('__bool__', '__nonzero__', '__len__')):
                return True
            if self.h.kind(cls) in ('Sequence', 'Set') and self.h.fields(cls):
                return True             # as long as its definition
            return None
        if v == self.h.void:
            return False
        return Interp.truth(self, v, st)

    def elem(self, it, st, node, frame):
        n = self.h.node(self, st, it)
        if n is not None:
            return self.h.element(self, st, n, '*%s' % getattr(node, 'lineno', ''), fresh=True)
        return Interp.elem(self, it, st, node, frame)

    def e_Name(self, e, st, frame):
        if e.id not in st.env and frame.fi is not None and e.id in self.locals_of(frame.fi):
            self.h.push(frame, st, e, 'UnboundLocalError', 'S06', 'variable %s has no value' % e.id)
            return []
        return Interp.e_Name(self, e, st, frame)

    def locals_of(self, fi):
        r = self.h.locs.get(fi)
        if r is None:
            glob = set(n for x in ast.walk(fi.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names)
            inner = set()
            for x in ast.walk(fi.node):
                if x is not fi.node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    inner |= set(id(y) for y in ast.walk(x))
            r = self.h.locs[fi] = set(x.id for x in ast.walk(fi.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and
                                      id(x) not in inner) - glob
        return r

    # -- finite domains of registry values
    def dom(self, v, st):
        d = st.facts.get(('dom', v))
        return d if d is not None else self.h.doms.get(v)

    def decide(self, c, st):
        r = Interp.decide(self, c, st)
        if r is None and c[0] == 'op' and c[1] == 'is':
            a, b = self.resolve(c[2], st), self.resolve(c[3], st)
            for x, y in ((a, b), (b, a)):
                if x == self.h.void and y != x and (self.h.node(self, st, y) is not None or is_k(y)):
                    return False
        if r is None and c[0] == 'op' and c[1] in ('eq', 'in'):
            a, b = self.resolve(c[2], st), self.resolve(c[3], st)
            d = self.dom(a, st)
            if d is not None:
                vals = consts(b, st) if c[1] == 'in' else (frozenset([b[2]]) if is_k(b) else None)
                if vals is not None:
                    if not d & vals:
                        return False
                    if d <= vals:
                        return True
        if r is None:
            got = self.parts(c, st)
            if got is not None and (not got[1] or not got[2]):
                return bool(got[1])
        return r

    def parts(self, c, st):
        """(symbol, registry names for which the condition holds, those for which it does not)"""
        if c[0] != 'op' or c[1] in ('is', 'isinstance', 'issubclass', 'hasattr'):
            return None
        syms = set()
        if not bases(c, syms, self, st) or len(syms) != 1:
            return None
        x = next(iter(syms))
        d = self.dom(x, st)
        yes, no = set(), set()
        for v in d:
            if v == UNK_NAME:
                v2 = '1.2.840.999999.1'     # an identifier without a name reads as its dotted form
            else:
                v2 = v
            try:
                (yes if fold(c, x, v2, self, st) else no).add(v)
            except Exception:
                return None
        return x, frozenset(yes), frozenset(no)

    def assume(self, c, val, st):
        got = self.parts(c, st)
        if not Interp.assume(self, c, val, st):
            return False
        if got is not None and not self.h.narrow(st, got[0], got[1] if val else got[2]):
            return False
        if c[0] == 'op' and c[1] in ('eq', 'in') and not is_k(c[2]):
            d = self.dom(c[2], st)
            vals = consts(self.resolve(c[3], st), st) if c[1] == 'in' else (frozenset([c[3][2]]) if is_k(c[3]) else None)
            if d is not None and vals is not None:
                return self.h.narrow(st, c[2], d & vals if val else d - vals)
        return True


FOLD = {'eq': lambda a, b: a == b, 'in': lambda a, b: a in b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'not': lambda a: not a,
        'truth': bool, 'index': lambda a, b: a[b], 'slice': lambda a, *b: a[slice(*b)], 'len': len, 'add': lambda a, b: a + b}
STR_METHODS = frozenset(['find', 'startswith', 'endswith', 'split', 'rsplit', 'partition', 'rpartition', 'lower', 'upper', 'strip', 'replace',
                         'index', 'rfind', 'count', 'isdigit', 'title', 'lstrip', 'rstrip'])


def bases(t, out, ip, st):
    """The registry values a term is computed from; False when it also depends on something else."""
    t = ip.resolve(t, st)
    if is_k(t):
        return True
    if ip.dom(t, st) is not None:
        out.add(t)
        return True
    if t[0] == 'tup':
        return all(bases(x, out, ip, st) for x in t[1])
    if t[0] in ('sc', 'ref'):
        return consts(t, st) is not None
    if t[0] == 'op':
        if t[1] == 'typed':
            return bases(t[2], out, ip, st)
        if t[1] in FOLD:
            return all(bases(x, out, ip, st) for x in t[2:])
        if t[1] == 'meth' and is_k(t[3]) and t[3][2] in STR_METHODS:
            return bases(t[2], out, ip, st) and all(bases(x, out, ip, st) for x in t[4:])
    return False


def fold(t, sym, val, ip, st):
    t = ip.resolve(t, st)
    if t == sym:
        return val
    if is_k(t):
        return t[2]
    if t[0] == 'tup':
        return tuple(fold(x, sym, val, ip, st) for x in t[1])
    if t[0] in ('sc', 'ref'):
        return t[1].obj if t[0] == 'sc' else consts(t, st)
    if t[1] == 'typed':
        return fold(t[2], sym, val, ip, st)
    if t[1] == 'meth':
        return getattr(fold(t[2], sym, val, ip, st), t[3][2])(*[fold(x, sym, val, ip, st) for x in t[4:]])
    return FOLD[t[1]](*[fold(x, sym, val, ip, st) for x in t[2:]])


def consts(b, st):
    """The constants a container holds, when known."""
    if b[0] == 'sc':
        try:
            return frozenset(b[1].obj)
        except TypeError:
            return None
    if b[0] == 'tup' and all(is_k(x) for x in b[1]):
        return frozenset(x[2] for x in b[1])
    if b[0] == 'ref' and b[1] in st.heap:
        c = st.heap[b[1]].get('__const__')
        if c is None and st.heap[b[1]].get('__keys__') is not None:
            c = tuple(st.heap[b[1]]['__keys__'])
        if c is not None and all(is_k(x) for x in c):
            return frozenset(x[2] for x in c)
    return None


class TypedHooks(Hooks):
    max_states = 400
    max_rounds = 3
    unroll = 24
    skip_inline = frozenset(['util', 'parser', '_iri', '_inet', '_errors', '_types', '_int', '_teletex_codec', '_ordereddict', 'core', 'pem'])

    def __init__(self, prog):
        self.p = prog
        self.void = wrap(prog.modules['core'].env['VOID']) if 'core' in prog.modules else None
        self.doms, self.nats, self.locs = {}, {}, {}
        self.why = {}           # (node id, exception) -> (rule, message)
        self.found = {}         # (rule, key) -> (where, message) reported directly
        self.optional = set()
        self.touched = {'components': set(), 'attributes': set(), 'comparisons': set()}

    # ------------------------------------------------------------ model of types
    def kind(self, c):
        for b in c.mro:
            if b.module.name == 'core' and b.name in ('Choice', 'Any', 'SetOf', 'SequenceOf', 'Set', 'Sequence', 'Concat'):
                return b.name
        return 'Primitive'

    def fields(self, c, attr='_fields'):
        r = []
        for f in c.get(attr) or []:
            if isinstance(f, (tuple, list)) and len(f) > 1 and isinstance(f[1], ClassInfo):
                r.append((f[0], f[1], f[2] if len(f) > 2 and isinstance(f[2], dict) else {}))
            elif isinstance(f, (tuple, list)) and f:
                r.append((f[0], None, {}))
        return r

    def is_node_class(self, c):
        return isinstance(c, ClassInfo) and any(b.name == 'Asn1Value' for b in c.mro)

    def node(self, ip, st, v):
        """(class, path) of a decoded value."""
        if v[0] == 'ref' and v[1] in ('s', 'x'):
            return (st.heap[v[1]]['__cls__'], 'self' if v[1] == 's' else 'other')
        if v[0] == 'sym' and v[2] is not None and len(v[2]) == 1:
            c = next(iter(v[2]))
            if self.is_node_class(c):
                return (c, v[1])
        return None

    def mk(self, path, cls):
        return ('sym', path, frozenset([cls]))

    # ------------------------------------------------------------ failures
    def push(self, frame, st, node, exc, rule, msg):
        s = st.fork()
        s.facts[('why', id(node), exc)] = (rule, msg)
        self.why.setdefault((id(node), exc), (rule, msg))
        frame.raises.append((exc, s, node))

    def flag(self, rule, key, frame, node, msg):
        if (rule, key) not in self.found:
            self.found[(rule, key)] = ('%s:%s' % (frame.fi.module.relpath, getattr(node, 'lineno', '?')), '%s: %s' % (frame.fi.qual, msg))

    # ------------------------------------------------------------ registries
    def domain(self, cls):
        m = cls.get('_map')
        if isinstance(m, dict) and not m and cls.method('_setup') is not None:
            try:
                selector.prepare(self.p, cls)
            except (_Raise, _Unknown):
                return None
            m = cls.get('_map')
        if not isinstance(m, dict) or not m:
            return None
        return m

    def native(self, ip, st, n):
        cls, path = n
        v, ow = cls.lookup('native')
        sym = path + '.native'
        if ow is not None and ow.module.name != 'core':
            return ('sym', sym, None)
        k = self.kind(cls)
        m = self.domain(cls)
        t = None
        base = [b.name for b in cls.mro if b.module.name == 'core']
        for b in base:
            if b in NATIVE:
                t = NATIVE[b]
                break
        if t == 'NoneType':
            return NONE
        if m is not None:
            names = frozenset(x for x in m.values() if isinstance(x, str))
            if 'BitString' in base:
                r = ('sym', sym, frozenset(['set']))
                self.nats[r] = (cls, path)
                return r
            if 'ObjectIdentifier' in base or 'Enumerated' in base:
                r = ('sym', sym, frozenset(['str']))
            else:
                r = ('sym', sym, frozenset(['str', 'int']))
            self.doms[r] = names | (frozenset() if 'Enumerated' in base else frozenset([UNK_NAME]))
            self.nats[r] = (cls, path)
            got = st.facts.get(('val', r))
            return got if got is not None else r
        if t is None:
            t2 = None
        elif k in ('Choice', 'Any') or any(b.startswith('Parsable') for b in base):
            t2 = None
        else:
            t2 = frozenset([t])
        r = ('sym', sym, t2)
        self.nats[r] = (cls, path)
        return r

    def narrow(self, st, sym, dom):
        if not dom:
            return False
        st.facts[('dom', sym)] = dom
        if len(dom) == 1 and UNK_NAME not in dom:
            st.facts[('val', sym)] = K(next(iter(dom)))
        return True

    # ------------------------------------------------------------ components
    def table(self, cls, i):
        """identifier path, {name: (outer, inner)} for an open component; None if the type is fixed."""
        c = self.p.__dict__.setdefault('_typed_tables', {})
        if (cls, i) in c:
            return c[(cls, i)]
        r = None
        if any(j == i for j, _ in selector.open_components(cls)):
            try:
                selector.prepare(self.p, cls)
                path, t, other = selector.table(self.p, cls, i)
                out = {}
                leaf = cls
                for x in path or ():
                    leaf = dict((f[0], f[1]) for f in self.fields(leaf)).get(x)
                m = self.domain(leaf) if leaf is not None else None
                for k, v in t.items():
                    if isinstance(k, tuple):
                        continue
                    name = m.get(k, UNK_NAME) if m and k in m else UNK_NAME
                    out[name] = v if isinstance(v, tuple) else (None, None)
                r = (path, out)
            except (_Raise, _Unknown, AnalysisBroken):
                r = (None, {})
        c[(cls, i)] = r
        return r

    def child(self, ip, st, n, name, node, frame):
        """Values a component can have: [(value, state)]."""
        cls, path = n
        fs = self.fields(cls)
        idx = [i for i, f in enumerate(fs) if f[0] == name] if isinstance(name, str) else ([name] if 0 <= name < len(fs) else [])
        self.touched['components'].add((getattr(node, 'lineno', 0), frame.fi.qual, str(name)))
        if not idx:
            if fs:
                self.push(frame, st, node, 'KeyError', 'A02', '%s has no component %r' % (cls.qual, name))
                return []
            return [(('sym', '%s/%s' % (path, name), None), st)]
        i = idx[0]
        fname, spec, params = fs[i]
        key = ('sym', '%s/%s' % (path, fname), None)
        got = st.facts.get(('val', key))
        if got is not None:
            return [(got, st)]
        out = []
        if params.get('optional'):
            self.optional.add((cls, fname))
            s = st.fork()
            s.facts[('val', key)] = self.void
            out.append((self.void, s))
        for v, s in self.specs(ip, st, n, i, spec, key[1], node, frame):
            s.facts[('val', key)] = v
            out.append((v, s))
        return out

    def specs(self, ip, st, n, i, spec, path, node, frame):
        t = self.table(n[0], i)
        if t is None:
            return [(self.mk(path, spec) if spec is not None else ('sym', path, None), st.fork())]
        spath, rows = t
        if not rows or spath is None:
            return [(('sym', path, None), st.fork())]
        cur = [(None, n, st.fork())]
        for x in spath:
            nxt = []
            for _, m, s in cur:
                for v, s2 in self.child(ip, s, m, x, node, frame):
                    m2 = self.node(ip, s2, v)
                    nxt.append((v, m2, s2))
            cur = [c for c in nxt if c[1] is not None]
        out = []
        for v, m, s in cur:
            nat = self.native(ip, s, m)
            groups = {}
            for name, sp in rows.items():
                groups.setdefault(sp, set()).add(name)
            if is_k(nat):
                sp = rows.get(nat[2], rows.get(UNK_NAME))
                out.append((self.opened(path, sp, spec, s), s))
                continue
            d = ip.dom(nat, s)
            for sp, names in sorted(groups.items(), key=str):
                s2 = s.fork()
                keep = names & d if d is not None else names
                if keep and self.narrow(s2, nat, frozenset(keep)):
                    out.append((self.opened(path, sp, spec, s2), s2))
        return out

    def opened(self, path, sp, spec, st):
        outer, inner = sp if sp else (spec, None)
        if not isinstance(outer, ClassInfo):
            outer = spec
        if isinstance(inner, ClassInfo) and (outer is None or any(b.name == 'Any' and b.module.name == 'core' for b in outer.mro)):
            outer, inner = inner, None      # an open component is decoded as the type it contains
        if outer is None:
            return ('sym', path, None)
        v = self.mk(path, outer)
        if isinstance(inner, ClassInfo):
            st.facts[('val', ('sym', path + '.parsed', None))] = self.mk(path + '.parsed', inner)
        return v

    def element(self, ip, st, n, tag, fresh=False):
        cls, path = n
        k = self.kind(cls)
        if k in ('Sequence', 'Set'):
            return ('sym', '%s.fieldname%s' % (path, tag), frozenset(['str']))
        sp = cls.get('_child_spec')
        p = '%s/%s' % (path, tag)
        if fresh:
            for f in list(st.facts):
                if mentions(f, p):
                    del st.facts[f]
        if isinstance(sp, ClassInfo):
            return self.mk(p, sp)
        return ('sym', p, None)

    # ------------------------------------------------------------ interpreter hooks
    def inline(self, ip, fi, bound, frame):
        return fi.module.name not in self.skip_inline

    def own_attr(self, cls, attr):
        """assigned on instances by a method of the class"""
        c = self.p.__dict__.setdefault('_own_attrs', {})
        if cls not in c:
            s = set()
            for b in cls.mro:
                for f in b.attrs.values():
                    fs = [f.fget, f.fset] if isinstance(f, PropertyInfo) else [f] if isinstance(f, FuncInfo) else []
                    for g in fs:
                        if g is None:
                            continue
                        for x in ast.walk(g.node):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                s.add(x.attr)
            c[cls] = s
        return attr in c[cls]

    def getattr(self, ip, st, o, attr, node, frame):
        if attr in ('__class__', '__name__'):
            return None
        if o == NONE:
            self.push(frame, st, node, 'AttributeError', 'A01', 'attribute %s of None' % attr)
            return []
        if o == self.void:
            if attr == 'native':
                return [(NONE, st)]
            c = o[1].cls
            if isinstance(c, ClassInfo) and not c.has(attr) and not self.own_attr(c, attr):
                self.push(frame, st, node, 'AttributeError', 'A01', 'attribute %s of an absent component' % attr)
                return []
            if attr == 'contents':
                return [(NONE, st)]
            return None
        n = self.node(ip, st, o)
        if n is None:
            return None
        self.touched['attributes'].add((getattr(node, 'lineno', 0), frame.fi.qual, attr))
        cls, path = n
        if o[0] == 'sym':
            got = st.facts.get(('val', ('sym', '%s.%s' % (path, attr), 'stored')))
            if got is not None:
                return [(got, st)]
        dyn = self.dynamic(ip, st, o, n, attr)
        if dyn is not None:
            return dyn
        v, ow = cls.lookup(attr)
        if ow is None:
            if o[0] == 'ref' and attr in st.heap[o[1]] or self.own_attr(cls, attr):
                return None
            self.push(frame, st, node, 'AttributeError', 'A02', '%s has no attribute %s' % (cls.qual, attr))
            return []
        if isinstance(v, PropertyInfo) and ow.module.name == 'core':
            return self.core_property(ip, st, n, attr, node, frame)
        return None

    def dynamic(self, ip, st, o, n, attr):
        """A field filled by setattr() with a computed name: absent or the value of that extension."""
        if o[0] != 'ref':
            return None
        for pat, elem in st.heap[o[1]].get('__dyn__') or ():
            m = re.match('^' + re.escape(pat).replace('%s', '(.+)') + '$', attr)
            if not m or attr in st.heap[o[1]]:
                continue
            name = m.group(1)
            ecls = elem
            key = ('sym', '%s.dyn/%s' % (n[1], name), None)
            got = st.facts.get(('val', key))
            if got is not None:
                return [(got, st)]
            out = []
            d = wrap(n[0].get(attr)) if n[0].has(attr) else NONE
            s = st.fork()
            s.facts[('val', key)] = d
            out.append((d, s))
            t = None
            for i, f in enumerate(self.fields(ecls)):
                r = self.table(ecls, i)
                if r and name in r[1]:
                    t = r[1][name]
            s = st.fork()
            v = ('sym', key[1], None)
            if t is not None:
                inner = t[1] if isinstance(t[1], ClassInfo) else None
                v = self.mk(key[1], inner) if inner is not None else ('sym', key[1], None)
            s.facts[('val', key)] = v
            out.append((v, s))
            return out
        return None

    def core_property(self, ip, st, n, attr, node, frame):
        cls, path = n
        if attr == 'native':
            return [(self.native(ip, st, n), st)]
        if attr == 'contents':
            return [(('sym', path + '.contents', frozenset(['bytes'])), st)]
        if self.kind(cls) == 'Choice' and attr in ('name', 'chosen'):
            alts = self.fields(cls, '_alternatives')
            sym = ('sym', path + '.name', frozenset(['str']))
            self.doms[sym] = frozenset(a[0] for a in alts)
            self.nats[sym] = (cls, path)
            if attr == 'name':
                got = st.facts.get(('val', sym))
                return [(got if got is not None else sym, st)]
            d = ip.dom(sym, st)
            got = st.facts.get(('val', sym))
            out = []
            for a, sp, prm in alts:
                if got is not None and got != K(a) or a not in d or sp is None:
                    continue
                s = st.fork()
                if self.narrow(s, sym, frozenset([a])):
                    out.append((self.mk('%s/%s' % (path, a), sp), s))
            return out
        if attr in ('parsed',):
            key = ('sym', path + '.parsed', None)
            got = st.facts.get(('val', key))
            return [(got if got is not None else key, st)]
        return [(('sym', '%s.%s' % (path, attr), None), st)]

    def getitem(self, ip, st, o, k, node, frame):
        if o == NONE:
            self.push(frame, st, node, 'TypeError', 'A01', 'None is subscripted')
            return []
        if o == self.void:
            self.push(frame, st, node, 'TypeError', 'A01', 'an absent component is subscripted')
            return []
        n = self.node(ip, st, o)
        if n is not None:
            cls = n[0]
            if not cls.has('__getitem__'):
                self.push(frame, st, node, 'TypeError', 'A02', '%s has no components' % cls.qual)
                return []
            if cls.lookup('__getitem__')[1].module.name != 'core':
                return None
            return self.component(ip, st, n, k, node, frame)
        if o in self.nats and self.kind(self.nats[o][0]) in ('Sequence', 'Set') and is_k(k):
            out = []
            for v, s in self.child(ip, st, self.nats[o], k[2], node, frame):
                out += self.nat_of(ip, s, v)
            return out
        if o[0] == 'sc' and isinstance(o[1].obj, dict) and not is_k(k):
            d = ip.dom(k, st)
            if d is not None:
                out = []
                for x in sorted(d & frozenset(y for y in o[1].obj if isinstance(y, str))):
                    s = st.fork()
                    if self.narrow(s, k, frozenset([x])):
                        out.append((wrap(o[1].obj[x], o[1].label), s))
                rest = d - frozenset(o[1].obj)
                s = st.fork()
                if rest and self.narrow(s, k, rest):
                    self.push(frame, s, node, 'KeyError', 'S06', 'the table %s has no entry for some values' % o[1].label)
                return out
        return None

    def nat_of(self, ip, st, v):
        if v == self.void:
            return [(NONE, st)]
        n = self.node(ip, st, v)
        return [(self.native(ip, st, n) if n is not None else ('sym', 'native?', None), st)]

    def component(self, ip, st, n, k, node, frame):
        kind = self.kind(n[0])
        if kind in ('Sequence', 'Set'):
            if is_k(k) and isinstance(k[2], (str, int)):
                return self.child(ip, st, n, k[2], node, frame)
            return [(('sym', '%s/?%s' % (n[1], getattr(node, 'lineno', '')), None), st)]
        if kind in ('SequenceOf', 'SetOf'):
            tag = str(k[2]) if is_k(k) else '?'
            if is_k(k) and isinstance(k[2], str):
                self.push(frame, st, node, 'TypeError', 'A02', '%s has no component %r' % (n[0].qual, k[2]))
                return []
            return [(self.element(ip, st, n, tag, fresh=not is_k(k)), st)]
        return [(('sym', '%s/?' % n[1], None), st)]

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'cls' and self.is_node_class(fn[1]):
            self.constructed(ip, st, fn[1], args, kwargs, node, frame)
            return [(self.mk('new:%s' % getattr(node, 'lineno', ''), fn[1]), st)]
        if fn[0] != 'fn':
            return None
        fi, bound = fn[1], fn[2]
        name = fi.node.name
        if bound is not None and bound[0] == 'cls' and self.is_node_class(bound[1]) and fi.module.name == 'core':
            if name in ('load',):
                if args and args[0] in (NONE, self.void):
                    self.push(frame, st, node, 'TypeError', 'A01', '%s.load() is given no data' % bound[1].qual)
                    return []
                return [(self.mk('load:%s' % getattr(node, 'lineno', ''), bound[1]), st)]
            return [(('sym', 'call:%s:%s' % (name, getattr(node, 'lineno', '')), None), st)]
        if bound == self.void and name == '__iter__':
            return [(('tup', ()), st)]
        if bound == self.void and name == '__len__':
            return [(K(0), st)]
        n = self.node(ip, st, bound) if bound is not None else None
        if n is None or fi.module.name != 'core':
            return None
        if name in SAME:
            return [(bound, st)]
        if name == 'cast' and args and args[0][0] == 'cls':
            return [(self.mk(n[1] + '.cast', args[0][1]), st)]
        if name == '__iter__':
            return [(bound, st)]
        if name == 'native':
            return [(self.native(ip, st, n), st)]
        if name == '__getitem__' and args:
            return self.component(ip, st, n, ip.resolve(args[0], st), node, frame)
        if name == 'parse':
            if args and args[0][0] == 'cls':
                return [(self.mk(n[1] + '.parse', args[0][1]), st)]
            return [(('sym', n[1] + '.parse', None), st)]
        if name in CORE_VALUES:
            t = CORE_VALUES[name]
            return [(NONE if t == 'NoneType' else ('sym', '%s.%s()' % (n[1], name), frozenset([t])), st)]
        return [(('sym', '%s.%s()' % (n[1], name), None), st)]

    def names(self, cls):
        k = self.kind(cls)
        if k == 'Choice':
            return frozenset(a[0] for a in self.fields(cls, '_alternatives'))
        if k in ('Sequence', 'Set') and self.fields(cls):
            return frozenset(f[0] for f in self.fields(cls))
        return None

    def constructed(self, ip, st, cls, args, kwargs, node, frame):
        """Names given to a constructor."""
        ns = self.names(cls)
        if ns is None:
            return
        used = []
        v = args[0] if args else kwargs.get('value') if self.kind(cls) != 'Choice' else None
        v = ip.resolve(v, st) if v is not None else None
        if self.kind(cls) == 'Choice':
            n = kwargs.get('name')
            if n is None and v is not None and is_k(v) and isinstance(v[2], str):
                n = v
            if n is not None and is_k(n) and isinstance(n[2], str):
                used.append(n[2])
        if v is not None and v[0] == 'ref' and v[1] in st.heap and st.heap[v[1]].get('__cls__') == 'dict':
            used += [k[2] for k in st.heap[v[1]].get('__keys__') or () if is_k(k)]
        for x in used:
            self.touched['components'].add((getattr(node, 'lineno', 0), frame.fi.qual, str(x)))
            if x not in ns:
                self.flag('A02', '%s %s' % (frame.fi.qual, x), frame, node, '%s has no component %r' % (cls.qual, x))

    def on_substore(self, ip, st, cont, key, val, node, frame):
        n = self.node(ip, st, cont)
        ns = self.names(n[0]) if n is not None and self.kind(n[0]) in ('Sequence', 'Set') else None
        if ns is None or not is_k(key) or not isinstance(key[2], str):
            return
        self.touched['components'].add((getattr(node, 'lineno', 0), frame.fi.qual, key[2]))
        if key[2] not in ns:
            self.flag('A02', '%s %s' % (frame.fi.qual, key[2]), frame, node, '%s has no component %r' % (n[0].qual, key[2]))

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj[0] == 'sym' and isinstance(attr, str) and self.node(ip, st, obj) is not None:
            st.facts[('val', ('sym', '%s.%s' % (obj[1], attr), 'stored'))] = val
        if isinstance(attr, tuple) and attr[0] == 'op' and attr[1] == 'dynattr' and obj[0] == 'ref' and obj[1] in st.heap:
            v = attr[2]
            while v[0] == 'op' and v[1] == 'typed':
                v = v[2]
            if v[0] == 'op' and v[1] == 'mod_str' and is_k(v[2]):
                arg = v[3][1][0] if v[3][0] == 'tup' and len(v[3][1]) == 1 else v[3]
                own = self.nats.get(arg)
                if own is not None and '/' in own[1]:
                    holder = own[1].rsplit('/', 1)[0]
                    hc = self.class_at(holder, st)
                    if hc is not None:
                        ob = dict(st.heap[obj[1]])
                        ob['__dyn__'] = tuple(sorted(set(ob.get('__dyn__') or ()) | {(v[2][2], hc)}, key=str))
                        st.heap[obj[1]] = ob

    def class_at(self, path, st):
        for v in list(st.env.values()) + list(st.facts.values()):
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'sym' and v[1] == path and v[2]:
                return next(iter(v[2]))
        return None

    def implicit(self, ip, st, what, info, node, frame):
        nothing = (NONE, self.void)
        bad = None
        if what in ('order', 'len', 'iter', 'slice') and any(x == NONE for x in info[:2]):
            bad = {'order': 'None is compared by size', 'len': 'the length of None', 'iter': 'None is iterated', 'slice': 'None is sliced'}[what]
        elif what == 'order' and self.void in info[:2] or what == 'slice' and info[0] == self.void:
            bad = 'an absent component is used as a value'
        elif what == 'binop' and any(x in nothing for x in info[1:]):
            bad = 'None in arithmetic'
        elif what == 'in' and info[1] == NONE:
            bad = 'membership in None'
        elif what == 'ext' and any(x == NONE or x == self.void and not iterates(info[0][1]) for x in info[1:]) and needs_value(info[0][1]):
            bad = '%s() is given None' % info[0][1]
        elif what == 'meth' and info[0][0] in ('k', 'op', 'sym') and info[1][2] in ('join', 'match', 'search', 'find', 'startswith', 'endswith') \
                and any(x in nothing for x in info[2:3]):
            bad = '%s() is given None' % info[1][2]
        if bad:
            self.why.setdefault((id(node), 'TypeError'), ('A01', bad))
            return ('TypeError',)
        if what in ('eq', 'in'):
            self.compared(ip, st, what, info, node, frame)
        return ()

    def compared(self, ip, st, what, info, node, frame):
        a, b = info
        if what == 'eq' and is_k(a):
            a, b = b, a
        if what == 'in' and is_k(a) and b in self.nats and b[2] == frozenset(['set']):
            m = self.domain(self.nats[b][0])
            self.touched['comparisons'].add((getattr(node, 'lineno', 0), frame.fi.qual))
            if m and isinstance(a[2], str) and a[2] not in m.values():
                self.flag('A02', '%s %s' % (frame.fi.qual, a[2]), frame, node, '%s has no bit named %r' % (self.nats[b][0].qual, a[2]))
            return
        if a not in self.doms or a not in self.nats:
            return
        vals = [b[2]] if what == 'eq' and is_k(b) else sorted(consts(b, st) or (), key=str) if what == 'in' else []
        cls = self.nats[a][0]
        self.touched['comparisons'].add((getattr(node, 'lineno', 0), frame.fi.qual))
        for x in vals:
            if isinstance(x, str) and x not in self.doms[a] and not re.match(r'^[\d.]+$', x):
                self.flag('A02', '%s %s' % (frame.fi.qual, x), frame, node, '%s never has the value %r it is compared with' % (
                    cls.qual + (' alternative' if a[1].endswith('.name') else ''), x))


def needs_value(n):
    n = n[9:] if n.startswith('builtins.') else n
    return n in ('int', 'float', 'ord', 'chr', 'abs', 'min', 'max', 'round', 'sorted', 'reversed', 'enumerate', 'zip', 'sum', 'any', 'all',
                 'range', 'list', 'tuple', 'set', 'dict', 'len') or n.split('.')[0] in ('math', 'hashlib', 'zlib', 'binascii', 'base64', 're',
                                                                                       'struct', 'socket')


def iterates(n):
    """takes anything that can be iterated or measured, as an absent component can"""
    return n.split('.')[-1] in ('len', 'list', 'tuple', 'set', 'dict', 'sorted', 'enumerate', 'zip', 'sum', 'any', 'all', 'map', 'filter')


def mentions(f, prefix):
    if isinstance(f, tuple):
        if len(f) == 3 and f[0] == 'sym' and isinstance(f[1], str):
            return f[1].startswith(prefix)
        return any(mentions(x, prefix) for x in f if isinstance(x, tuple))
    return False


def initial(cls):
    st = State()
    st.heap['s'] = {'__cls__': cls, '__state__': 'fresh'}
    return st
