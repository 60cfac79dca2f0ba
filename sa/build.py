"""Interpretation of the decoder's entry point for one type and one shape of element.

The class, method and tag of each element are fixed per case ("as declared", "another class", ...); header, contents and trailer bytes
stay symbolic.  `_parse` is replaced by the case's next nested element, so a path's exit tells whether the shape is accepted and what
the resulting object keeps of the input."""
from .flow import Interp, State, K, NONE, op, tup, wrap, TooComplex, is_k, is_const, plain_const
from .objsem import ObjHooks

BYTES = frozenset(['bytes'])
EOC = b'\0\0'
_NAMES = ('contents', 'c1', 'c2', 'c3')


class ClassState(ObjHooks):
    """Writes to class attributes and to shared tables during a run are kept and seen by later reads."""
    max_states = 400
    unroll = 80
    max_recursion = 4
    inline_depth = 14

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj[0] == 'cls':
            key = 'cls:' + obj[1].qual
            d = dict(st.heap.get(key, {'__cls__': None}))
            d[attr] = val
            st.heap[key] = d

    def on_substore(self, ip, st, cont, key, val, node, frame):
        if cont[0] == 'sc' and is_k(key):
            k = 'sc:%d' % id(cont[1].obj)
            d = dict(st.heap.get(k, {'__cls__': None}))
            d[('key', key)] = val
            st.heap[k] = d

    def getitem(self, ip, st, obj, key, node, frame):
        if obj[0] == 'sc':
            d = st.heap.get('sc:%d' % id(obj[1].obj))
            if d is not None and ('key', key) in d:
                return [(d[('key', key)], st)]
        return None

    def getattr(self, ip, st, obj, attr, node, frame):
        cls = None
        if obj[0] == 'cls':
            cls = obj[1]
        elif obj[0] == 'ref' and obj[1] in st.heap and attr not in st.heap[obj[1]]:
            cls = ip.cls_of(obj, st)
        if cls is not None and any(k.startswith('cls:') for k in st.heap):
            for b in cls.mro:
                d = st.heap.get('cls:' + b.qual)
                if d is not None and attr in d:
                    return [(d[attr], st)]
                if attr in b.attrs:
                    break
        return None


class BuildHooks(ClassState):
    def __init__(self, an, elements):
        self.an, self.elements = an, elements

    def inline(self, ip, fi, bound, frame):
        if fi in self.an.stops:
            return False
        if fi is self.an.build:
            return True
        return ObjHooks.inline(self, ip, fi, bound, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] != 'fn':
            return None
        if fn[1] is self.an.parse:
            a = args[0] if args else kwargs.get('encoded_data')
            n = _NAMES.index(a[1]) if a is not None and a[0] == 'sym' and a[1] in _NAMES else None
            if n is None or n + 1 >= len(self.elements):
                return [(('sym', 'unknown element', None), st)]
            e = self.elements[n + 1]
            frame.raises.append(('ValueError', st.fork(), node))
            used = op('len', a) if not e.get('extra') else ('sym', 'used%d' % n, frozenset(['int']))
            if e.get('extra'):
                st.facts[op('eq', used, op('len', a))] = False
                st.facts[op('eq', op('len', a), used)] = False
                st.facts[op('lt', used, op('len', a))] = True
            return [(tup(info(e, n + 1), used), st)]
        if fn[1].name == '_setup' and not (fn[2] is not None and self.an.choice in getattr(ip.cls_of(fn[2], st), 'mro', ())):
            return [(NONE, st)]         # tables of other kinds of type play no part in accepting an element
        if fn[1] in self.an.stops:
            env = ip.bind(fn[1], list(args), dict(kwargs), st.fork(), frame)
            if env is not None:
                st.mon = (st.mon or ()) + (self.an.handed(ip, st, fn[1], env),)
            return [(tup(('sym', 'parsed', None), op('len', args[0]) if args else NONE), st)]
        return None


def names(n):
    return ('header' if n == 0 else 'h%d' % n), _NAMES[n]


def info(e, n):
    h, c = names(n)
    return tup(K(e['class']), K(e['method']), K(e['tag']), ('sym', h, BYTES), ('sym', c, BYTES), K(EOC if e.get('indef') else b''))


def element(class_, method, tag, indef=False, extra=False):
    return {'class': class_, 'method': method, 'tag': tag, 'indef': indef, 'extra': extra}


def pieces(v):
    """A byte string as the list of its concatenated parts, or None."""
    if v is None:
        return None
    if v[0] == 'op' and v[1] == 'add':
        a, b = pieces(v[2]), pieces(v[3])
        return None if a is None or b is None else a + b
    if is_k(v):
        return [] if v[2] in (b'', None) else [v]
    return [v]


class Builder(object):
    def __init__(self, prog):
        self.p = prog
        fs = dict((f.qual, f) for f in prog.functions())
        self.build = fs.get('core._build')
        self.parse = fs.get('parser._parse')
        self.choice = prog.cls('core.Choice')
        self.stops = set(f for q, f in fs.items() if q in ('core._parse_build',))

    def handed(self, ip, st, fi, env):
        """(data, type, tagging) a nested decoding call is given."""
        ps = fi.params()
        spec = env.get('spec', NONE)
        data = env.get(ps[0], NONE)
        params = env.get('spec_params', NONE)
        tagging = None
        if params == NONE:
            tagging = []
        elif params[0] == 'sc' and isinstance(params[1].obj, dict):
            tagging = sorted((k, v) for k, v in params[1].obj.items() if k in ('implicit', 'explicit'))
        elif params[0] == 'ref' and st.heap.get(params[1], {}).get('__keys__') is not None:
            ob = st.heap[params[1]]
            vs = [(k, ob[('key', K(k))]) for k in ('explicit', 'implicit') if ('key', K(k)) in ob]
            if all(is_const(v) for _, v in vs):
                tagging = [(k, plain_const(v)) for k, v in vs]
        return data, spec, None if tagging is None else repr(tagging)

    def ok(self):
        return self.build is not None and self.parse is not None and len(self.build.params()) >= 7

    def run(self, spec, params, elements, budget=60000):
        h = BuildHooks(self, elements)
        ip = Interp(self.p, h, budget=budget)
        st = State()
        pv = NONE
        if params is not None:
            pv = st.alloc(__cls__='dict', __keys__=frozenset(K(k) for k in params), __len__=K(len(params)))
            for k, v in params.items():
                st.heap[pv[1]][('key', K(k))] = wrap(v)
        e = elements[0]
        args = list(info(e, 0)[1]) + [('cls', spec) if spec is not None else NONE, pv]
        return ip.run(self.build, args, st)
