"""M07: values share no mutable state with their inputs or with type definitions."""
import ast

from ..effects import only_reached_from
from ..flow import Interp, State, TooComplex, NONE, K, op, is_k
from ..model import ClassInfo, FuncInfo, PropertyInfo
from ..objsem import ObjHooks, SELF, MUTATORS
from ..reading import closure
from .m05 import is_tuple

RULE = ('Every public function, constructor, editing and reading method of every type is interpreted with opaque arguments. On no path may it '
        'store an attribute or item on, delete from, or call a mutating method of, anything reached from an argument or from a container '
        'defined in a class body (outside the one-time set-up of a class and the registration functions); nor keep an argument, or a part of '
        'it, or a class-level container, in a field of the value or in a container the value holds, unless what is known on that path about '
        'its type excludes lists, dicts and sets. A helper that is not followed is analysed by itself for the arguments it is handed.')
EXPLANATION = ('Path-sensitive write-effect and escape analysis with the arguments and the class-level containers as sources; values made by a '
               'call (a copy, a conversion, a new object) are not sources.')
ASSUMPTIONS = ['a value passed in that is an object of the library is meant to become a component and is not a container in this sense',
               'the result of a call that is not followed does not alias its arguments']

CONTAINERS = frozenset(['list', 'dict', 'set', 'OrderedDict', 'bytearray'])
REGISTER = ('register', 'unregister', '_add_to_map', '_setup')


def root(v):
    """('arg', n) or ('def', label) when the value is (part of) an argument or of a class-level container."""
    while True:
        t = v[0]
        if t == 'sym':
            if v[1].startswith('arg'):
                return ('arg', v[1])
            if v[1].startswith('cls:'):
                return ('def', v[1][4:])
            return None
        if t == 'sc':
            return ('def', v[1].label) if v[1].label.count('.') > 1 else None     # of a class; modules: F01
        if t != 'op':
            return None
        o = v[1]
        if o in ('attr', 'index', 'item', 'elem', 'typed'):
            v = v[2]
        elif o == 'meth' and is_k(v[3]) and v[3][2] in ('get', 'values', 'items', 'pop', 'setdefault'):
            v = v[2]
        elif o == 'phi':
            for x in v[2]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    r = root(x)
                    if r is not None:
                        return r
            return None
        else:
            return None
        if not (isinstance(v, tuple) and v and isinstance(v[0], str)):
            return None


def show(v, names):
    t = v[0]
    if t == 'sym':
        return names.get(v[1], v[1].replace('cls:', ''))
    if t == 'sc':
        return v[1].label
    if t == 'op' and v[1] == 'attr' and is_k(v[3]):
        return '%s.%s' % (show(v[2], names), v[3][2])
    if t == 'op' and v[1] == 'phi':
        return names.get((root(v) or ('', ''))[1], 'an input')
    if t == 'op':
        return 'part of %s' % show(v[2], names)
    return 'an input'


class Inputs(ObjHooks):
    max_states = 64
    unroll = 6

    def __init__(self, names, out, later, setup, follow=True):
        self.names, self.out, self.later, self.setup, self.follow = names, out, later, setup, follow
        self.maybe, self.used = [], set()

    def exempt(self, r, frame):
        """The set-up of a class brings its definitions into their final form."""
        return r[0] == 'def' and any(f.fi in self.setup for f in frame.stack())

    def bad(self, kind, what, node, frame):
        self.out.append((kind, what, frame.fi, getattr(node, 'lineno', frame.fi.node.lineno)))

    def entry_field(self, ip, st, oid, attr, frame):
        v = ObjHooks.entry_field(self, ip, st, oid, attr, frame)
        if v is not None and attr == 'children':
            return ('sym', v[1], frozenset(['list', 'NoneType']))
        return v

    def getattr(self, ip, st, o, attr, node, frame):
        if attr in ('_fields', '_alternatives') and o == SELF:
            return [(('sym', 'cls:' + attr, frozenset(['list'])), st)]
        return None

    def getitem(self, ip, st, o, k, node, frame):
        if o == SELF:
            ip.implicit('getitem', (o, k), st, node, frame)
            return [(op('component', o, k), st)]
        return None

    def inline(self, ip, fi, bound, frame):
        if not self.follow or not ObjHooks.inline(self, ip, fi, bound, frame):
            return False
        if bound == SELF:
            return True
        return fi.cls is None and fi.module.name not in ('core',)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'cls' and isinstance(fn[1], ClassInfo):
            ip.implicit('construct', (fn,) + tuple(args), st, node, frame)
            return [(op('new', fn[1].qual, *args), st)]
        if fn[0] == 'fn' and isinstance(fn[1], FuncInfo) and fn[1].node is not None and \
                not (frame.depth < self.inline_depth and not ip.too_recursive(fn[1], frame) and self.inline(ip, fn[1], fn[2], frame)):
            given = ([fn[2]] if fn[2] is not None else []) + list(args)
            ps = fn[1].params()
            tainted = set()
            for k, a in list(zip(ps, given)) + sorted(kwargs.items()):
                if k in ps and root(a) is not None:
                    tainted.add((k, root(a)[0]))
                    if as_container(ip.p, fn[1], k):
                        self.used.add(a)
            if tainted:
                self.later.add((fn[1], frozenset(tainted)))
        return None

    # -------------------------------------------------------------- writes
    def written(self, cont, node, frame, how):
        r = root(cont)
        if r is None or self.exempt(r, frame):
            return False
        self.bad('modify', '%s %s' % (how, show(cont, self.names)), node, frame)
        return True

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj[0] == 'cls' or obj[0] == 'mod':
            return              # state of classes and modules: F01
        if obj[0] in ('sym', 'op', 'sc') and root(obj) is not None:
            self.written(obj, node, frame, 'stores .%s of' % (attr if isinstance(attr, str) else '?'))
            return
        if obj == SELF:
            self.kept(ip, st, val, node, frame, 'self.%s' % (attr if isinstance(attr, str) else '?'))

    def on_substore(self, ip, st, cont, key, val, node, frame):
        if not self.written(cont, node, frame, 'stores an item of'):
            if self.own(st, cont):
                self.kept(ip, st, val, node, frame, 'a container of the value')

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        if cont[0] == 'op' and cont[1] in ('new', 'component'):
            return
        if self.library(ip, st, cont):
            return
        if not self.written(cont, node, frame, 'calls %s() on' % meth):
            if self.own(st, cont) and meth in ('append', 'insert', 'add', 'setdefault'):
                for a in args[-1:]:
                    self.kept(ip, st, a, node, frame, 'a container of the value')

    def on_delete(self, ip, st, cont, key, node, frame):
        self.written(cont, node, frame, 'deletes from')

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        if name in ('set', 'set_encoded_width') and o[0] != 'ref' and root(o) is not None and root(o)[0] == 'arg':
            self.bad('modify', 'calls %s() on %s' % (name, show(o, self.names)), node, frame)
        return None

    def library(self, ip, st, v):
        """A value of the library: editing it is an edit of a component."""
        ts = ip.types(v, st)
        if ts is not None:
            return bool(ts) and all(not isinstance(t, str) for t in ts)
        return False

    def own(self, st, cont):
        if cont[0] == 'sym':
            return cont[1].startswith('s.') and cont[1].endswith('@0')
        if cont[0] == 'ref':
            return any(v == cont for v in st.heap.get('s', {}).values())
        return False

    def kept(self, ip, st, val, node, frame, where):
        if val[0] == 'tup':
            for x in val[1]:
                self.kept(ip, st, x, node, frame, where)
            return
        r = root(val)
        if r is None or self.exempt(r, frame):
            return
        ts = ip.types(val, st)
        if ts is not None:
            if not any(t in CONTAINERS for t in ts if isinstance(t, str)):
                return
        elif r[0] == 'def':
            return              # entries of definitions are types and numbers unless known to be containers
        else:
            if is_tuple(ip, st, val):
                return
            for k, t in st.facts.items():
                if t is True and k[0] == 'op' and k[1] in ('isinstance', 'issubclass', 'hasattr') and k[2] == val:
                    return
        item = ('keep', '%s in %s' % (show(val, self.names), where), frame.fi, getattr(node, 'lineno', frame.fi.node.lineno))
        if ts is not None:
            self.out.append(item)
        else:
            self.maybe.append((val, item))

    def implicit(self, ip, st, what, info, node, frame):
        if what == 'in':
            self.used.add(info[1])
        elif what == 'ext' and info[0][1].replace('builtins.', '') in ('dict', 'list', 'set', 'tuple', 'sorted', 'len', 'enumerate', 'zip', 'iter', 'reversed',
                                                                               'map', 'filter', 'sum', 'any', 'all') and len(info) > 1:
            self.used.update(info[1:])
        elif what == 'iter':
            self.used |= set(x for x in info[0] if isinstance(x, tuple))
        if what in ('getitem', 'len', 'iter', 'setitem', 'delitem') or \
                what == 'meth' and info[1][2] in ('keys', 'items', 'values', 'get', 'copy', 'index', 'count'):
            self.used.add(info[0])
        return ()


def as_container(prog, fi, param, depth=0):
    """Does the function (or one it hands the parameter to) subscript, iterate, search or unpack the parameter?"""
    cache = prog.__dict__.setdefault('_m07_cont', {})
    if (fi, param) in cache or depth > 4:
        return cache.get((fi, param), False)
    cache[(fi, param)] = False
    is_p = lambda x: isinstance(x, ast.Name) and x.id == param
    res = False
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Subscript) and is_p(n.value) or isinstance(n, (ast.For, ast.comprehension)) and is_p(n.iter) or \
                isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and is_p(c) for o, c in zip(n.ops, n.comparators)) or \
                isinstance(n, ast.keyword) and n.arg is None and is_p(n.value) or \
                isinstance(n, ast.Attribute) and is_p(n.value) and n.attr in ('keys', 'items', 'values', 'get', 'pop', 'append', 'update'):
            res = True
            break
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            g = fi.module.env.get(n.func.id)
            if isinstance(g, FuncInfo) and g.node is not None:
                ps = g.params()
                given = list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg in ps]
                if any(is_p(a) and as_container(prog, g, q, depth + 1) for q, a in given):
                    res = True
                    break
    cache[(fi, param)] = res
    return res


def points(prog):
    """(label, class or None, function) once per distinct behaviour"""
    out, seen = [], {}
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for n, v in sorted(m.env.items()):
            if isinstance(v, FuncInfo) and v.module is m and v.cls is None and not n.startswith('_') and v.node is not None and v.params():
                out.append(('%s.%s' % (m.name, n), None, v, 1))
    for c in prog.classes():
        if c.module.name == '_ordereddict':
            continue
        names = {}
        for k in c.mro:
            for n, v in k.attrs.items():
                if n in names:
                    continue
                names[n] = v
        for n, v in names.items():
            fs = []
            if isinstance(v, FuncInfo):
                fs = [(n, v)]
            elif isinstance(v, PropertyInfo):
                fs = [(n, v.fget)] + ([(n + ' setter', v.fset)] if v.fset is not None else [])
            for label, f in fs:
                if f is None or f.node is None or f.module.name == '_ordereddict' or f.name in REGISTER:
                    continue
                if n.startswith('_') and not (n.startswith('__') and n.endswith('__')):
                    continue
                cl = frozenset(closure(c, f))
                seen.setdefault((label, f, cl, bool(c.get('_map'))), []).append(c)
    for (label, f, cl, _), cs in seen.items():
        own = [c for c in cs if f.cls is c]
        conc = [c for c in cs if isinstance(c.get('tag'), int)]
        out.append((label, (own or conc or cs)[0], f, len(cs)))
    return sorted(out, key=lambda x: (x[2].qual, x[1].qual if x[1] is not None else '', x[0]))


def normalisers(prog, setup):
    """Module-level functions the set-up of a class itself applies to its definitions."""
    funcs = dict(((f.module.name, f.name), f) for f in prog.functions() if f.cls is None and f.node is not None)
    out, work = set(), [f for f in setup if f.name == '_setup' or f.cls is None]
    while work:
        f = work.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = funcs.get((f.module.name, n.func.id))
                if g is not None and g not in out:
                    out.add(g)
                    work.append(g)
    return out


def check(ctx):
    setup = only_reached_from(ctx.prog, [f for f in ctx.prog.functions() if f.name in REGISTER])
    ctx.prog.m07_setup = setup | normalisers(ctx.prog, setup)
    ctx.spread(points(ctx.prog), one)
    ctx.need('functions analysed', 200)


def run(ctx, cls, f, tainted, label):
    """Analyse one function; -> set of (function, parameters) to analyse by themselves."""
    later = set()
    for follow, states, budget in ((True, 64, 60000), (True, 6, 60000), (False, 16, 60000), (False, 4, 60000)):
        out, names = [], {}
        later = set()
        h = Inputs(names, out, later, ctx.prog.m07_setup, follow)
        h.max_states = states
        h.max_rounds = 6 if states > 6 else 2
        ip = Interp(ctx.prog, h, budget=budget)
        st = State()
        args = []
        ps = f.params()
        if cls is not None and f.kind not in ('classmethod', 'staticmethod') and ps:
            st.heap['s'] = {'__cls__': cls, '__state__': 'fresh' if f.name == '__init__' else 'entry'}
            args.append(SELF)
        elif cls is not None and f.kind == 'classmethod' and ps:
            args.append(('cls', cls))
        for i, a in enumerate(ps[len(args):]):
            if tainted is not None and (a, 'def') in tainted:
                args.append(('sym', 'cls:%s' % a, None))
            elif tainted is None or (a, 'arg') in tainted:
                if f.name == '__deepcopy__':
                    args.append(('sym', 'memo', None))      # the record copy.deepcopy hands out to be filled
                    continue
                names['arg%d' % i] = a
                args.append(('sym', 'arg%d' % i, None))
            else:
                args.append(('sym', 'other%d' % i, None))
        if f.name == '__init__':
            st.heap['s']['__state__'] = 'entry'
        try:
            ip.run(f, args, st)
        except TooComplex:
            if (follow, states) != (False, 4):
                continue
            ctx.undec('%s: too many paths' % label)
        break
    ctx.count('functions analysed')
    out += [item for v, item in h.maybe if v in h.used]
    for kind, what, fn, line in out:
        ctx.report('%s %s %s' % (kind, fn.qual, what), '%s:%s' % (fn.module.relpath, line),
                   '%s %s %s (in %s)' % (label, 'keeps' if kind == 'keep' else 'modifies its input or a definition:', what, fn.qual))
    return later


def one(ctx, point):
    label, c, f, shared = point
    name = label if c is None else '%s.%s' % (c.qual, label)
    ctx.count('types x functions', shared)
    work = [(c, f, None, name)]
    done = set()
    while work:
        cc, ff, tainted, nm = work.pop(0)
        if (cc, ff, tainted) in done or len(done) > 60:
            continue
        done.add((cc, ff, tainted))
        for g, t in sorted(run(ctx, cc, ff, tainted, nm), key=lambda x: (x[0].qual, sorted(x[1]))):
            if ff is g:
                continue
            work.append((c if g.cls is not None and c is not None and g.cls in c.mro else g.cls, g, t, '%s (called by %s)' % (g.qual, name)))
    if shared > 1:
        ctx.sample('function', '%s on %d types' % (name, shared))
