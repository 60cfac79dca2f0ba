"""M04: copies, retagged, untagged and cast values are complete and independent."""
import ast
from ..flow import Interp, K, NONE, TRUE, FALSE, op, is_k, TooComplex, deps
from ..objsem import ObjHooks, SELF, self_state, lazy_functions, MUTATORS, entry_deps
from ..model import FuncInfo, PropertyInfo, ClassInfo
from . import m08

RULE = ('Every copying operation of every type is interpreted from an arbitrary state of the original. On each path the new object must '
        'take over every field that determines the value but is not recomputed from other fields (tagging for copies, element type, chosen '
        'alternative, encoded width, constructed-encoding flags together with the raw contents); no field of the original is stored to; '
        'after a deep copy no field that can hold a container or a value object refers to the object held by the original; a kept header '
        'is only taken over with the tagging it encodes. The copy of a decoded value is then encoded by interpretation and must contain '
        'exactly the contents of the original, and a value of any type that was not read yet must hand the same bytes to the decoder.')
EXPLANATION = ('Path-sensitive abstract interpretation of copy, __copy__, __deepcopy__, retag, untag and cast on symbolic originals; the '
               'fields that must be carried are derived from the stores in each class (stored, but not by code that reading reaches).')
ASSUMPTIONS = ['caches recomputed from the contents equal the cached value (M01, M02)', 'copy.copy/copy.deepcopy honour __copy__/__deepcopy__']

OPS = ('__copy__', '__deepcopy__', 'copy', 'retag', 'untag', 'cast')
TAGGING = ('class_', 'tag', 'implicit', 'explicit')
B = frozenset(['bytes'])


def functions(cls):
    for c in cls.mro:
        for n, v in c.attrs.items():
            if isinstance(v, PropertyInfo):
                for g in (v.fget, v.fset):
                    if g is not None:
                        yield g
            elif isinstance(v, FuncInfo):
                yield v


def stores(fi):
    ps = fi.params()
    me = ps[0] if ps else None
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
            yield n.attr


def copying(cls):
    """Functions only copying reaches: the operations and the helpers they call on the new object."""
    seen, work = set(), [cls.method(n) for n in OPS]
    others = set(OPS)
    roots = set()
    for f in functions(cls):
        if f.node.name not in others:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and not f.node.name.startswith('_copy') and not f.node.name.startswith('_new_'):
                    roots.add(n.attr)
    while work:
        f = work.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for c in cls.mro:
                    v = c.attrs.get(n.attr)
                    if isinstance(v, FuncInfo) and n.attr not in MUTATORS and not n.attr.startswith('__') and n.attr not in roots:
                        work.append(v)
    return seen


def must_carry(prog, cls):
    """(fields every copy must take over, {getter: storage})"""
    cp = copying(cls)
    lazy, every = set(), set()
    lz = lazy_functions(cls)
    for f in functions(cls):
        if f in cp:
            continue
        s = set(stores(f))
        every |= s
        if f in lz:
            lazy |= s
    out = set()
    for f in every - lazy:
        v, ow = cls.lookup(f)
        if isinstance(v, PropertyInfo) or f in TAGGING:
            continue
        if ow is not None and isinstance(v, bool):
            continue                    # a flag about the state of the caches; encoding flags are judged with the contents
        if f in ('_native', '_contents'):
            continue
        out.add(f)
    held = holders(prog)
    base = prog.cls('core.Asn1Value')
    for f in lazy:
        v, ow = cls.lookup(f)
        if ow is None or base.has(f) or isinstance(v, (PropertyInfo, bool)):
            continue
        if v is not None:
            out.add(f)                  # nothing tells that it has not been computed, so it is never recomputed
    for fi in lz - cp:
        ps = set(fi.params()[1:])
        if not ps or fi.node.name.startswith('__'):
            continue
        local = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                        if isinstance(x, ast.Name):
                            local.setdefault(x.id, []).append(n.value)
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == fi.params()[0] and \
                                x.attr in held and not isinstance(cls.lookup(x.attr)[0], PropertyInfo) and tainted(n.value, ps, local, 0):
                            out.add(x.attr)     # computed from an argument, so it cannot be recomputed from the contents alone
    return out


def tainted(v, ps, local, d):
    for n in ast.walk(v):
        if isinstance(n, ast.Name):
            if n.id in ps or d < 3 and any(tainted(x, ps, local, d + 1) for x in local.get(n.id, ())):
                return True
    return False


_HOLD = {}


def holders(prog):
    """Fields that can hold a mutable container or another value object."""
    if prog in _HOLD:
        return _HOLD[prog]
    out = _HOLD[prog] = set()
    for m in prog.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            local = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        ts = t.elts if isinstance(t, ast.Tuple) else [t]
                        vs = n.value.elts if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                            len(n.value.elts) == len(ts) else [n.value] * len(ts)
                        for x, v in zip(ts, vs):
                            if isinstance(x, ast.Name):
                                local.setdefault(x.id, []).append(v)
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        ts = t.elts if isinstance(t, ast.Tuple) else [t]
                        vs = n.value.elts if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                            len(n.value.elts) == len(ts) else [n.value] * len(ts)
                        for i, (x, v) in enumerate(zip(ts, vs)):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                if holds(prog, m, v, local, 0) and not (i > 0 and v is n.value):
                                    out.add(x.attr)
    return out


def holds(prog, m, v, local, d):
    if d > 3:
        return False
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Tuple):
        return any(holds(prog, m, x, local, d + 1) for x in v.elts)
    if isinstance(v, ast.Name):
        return any(holds(prog, m, x, local, d + 1) for x in local.get(v.id, ()) if not isinstance(x, ast.Name))
    if isinstance(v, ast.Call):
        f = v.func
        if isinstance(f, ast.Name):
            if f.id in ('set', 'list', 'dict', 'OrderedDict', '_parse_build', '_build'):
                return True
            t = m.env.get(f.id)
            return isinstance(t, ClassInfo) and t in set(prog.asn1_classes())
        return isinstance(f, ast.Attribute) and f.attr in ('parse', 'retag', 'untag', 'load') and not isinstance(f.value, ast.Constant)
    if isinstance(v, ast.IfExp):
        return holds(prog, m, v.body, local, d + 1) or holds(prog, m, v.orelse, local, d + 1)
    return False


class CopyHooks(ObjHooks):
    max_states = 300
    unroll = 4

    def __init__(self, cls, lazy, opaque_lazy=True):
        self.cls, self.opaque_lazy = cls, opaque_lazy
        self.lazy = frozenset(lazy) - copying(cls)
        self.stored = []
        self.elsewhere = []
        self.raw = []

    def entry_objs(self, st):
        return ('s',)

    def inline(self, ip, fi, bound, frame):
        if bound is None and frame is not None and fi.cls is None and fi.qual.startswith('core.'):
            return fi.qual not in ('core._parse_build', 'core._build')
        return ObjHooks.inline(self, ip, fi, bound, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'ext' and fn[1] in ('copy.deepcopy', 'copy.copy') and args:
            a = args[0]
            n = '__deepcopy__' if fn[1].endswith('deepcopy') else '__copy__'
            if a == SELF or a[0] == 'ref' and isinstance(st.heap.get(a[1], {}).get('__cls__'), ClassInfo):
                c = ip.cls_of(a, st)
                f = c.method(n) if c is not None else None
                if f is not None:
                    ar = [('sym', 'memo', frozenset(['dict']))] if n == '__deepcopy__' else []
                    return ip.invoke(('fn', f, a), ar, {}, st, node, frame)
            if is_k(a):
                return [(a, st)]
            return [(op('copied' if n == '__copy__' else 'deepcopied', a), st)]
        if fn[0] == 'op' and fn[1] == 'attr' and is_k(fn[3]) and fn[3][2] == 'copy' and not args:
            return [(op('deepcopied', fn[2]), st)]
        if fn[0] == 'fn' and fn[1].name == '_setup':
            return [(NONE, st)]         # class set-up, independent of the values
        if fn[0] == 'bmeth' and fn[2] == 'copy' and not args and fn[1][0] != 'ref':
            return [(op('deepcopied', fn[1]), st)]
        if self.opaque_lazy and fn[0] == 'fn' and fn[2] == SELF and fn[1] in self.lazy and fn[1].name not in MUTATORS:
            frame.raises.append(('ValueError', st.fork(), node))
            return [(op('packcall', fn[1].qual, SELF, *args), st)]
        return None

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj == SELF:
            self.stored.append((attr, frame, node))
        elif obj[0] != 'ref':
            self.elsewhere.append((attr, val))

    def on_substore(self, ip, st, cont, key, val, node, frame):
        if entry_deps(cont) and cont[0] != 'ref':
            self.stored.append((sorted(entry_deps(cont))[0], frame, node))

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        if cont[0] in ('sym', 'op') and entry_deps(cont) and not copied(cont):
            self.stored.append((sorted(entry_deps(cont))[0], frame, node))
        if meth in ('append', 'insert', 'extend', 'add') and cont[0] == 'ref' and args:
            a = args[-1]
            if entry_deps(a) and not copied(a) and not any(v is True and a in walk(k) for k, v in st.facts.items()):
                self.raw.append((a, node))


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def contains(v, w):
    return any(x == w for x in walk(v))


def copied(v):
    return v[0] == 'op' and v[1] in ('deepcopied',)


def strip(v):
    while v[0] == 'op' and v[1] in ('deepcopied', 'copied', 'typed'):
        v = v[-1] if v[1] != 'typed' else v[2]
    return v


def value_of(st, ref, f, prog):
    v = m08.field(prog, st, ref, f)
    return v if v is not None else NONE


def taken(v, f, getters, st, prog):
    """Is the new field's value the original's?"""
    if v is None:
        return False
    v = strip(v)
    if v[0] == 'sym' and v[1] == 's.%s@0' % f:
        return True
    if v[0] == 'op' and v[1] == 'packcall' and v[3] == SELF:
        q = v[2]
        q = q[2] if isinstance(q, tuple) else q
        return f in getters.get(q, ()) or q.endswith('.' + f.lstrip('_'))
    if v[0] == 'ref':
        ob = st.heap.get(v[1], {})
        return any(f in entry_deps(x) for k, x in ob.items() if isinstance(x, tuple) and not k.startswith('__cls'))
    return False


def any_dep(v, f, st):
    if v is None:
        return False
    if f in entry_deps(v):
        return True
    for d in deps(v):
        if d[0] == 'ref' and d[1] in st.heap and d != SELF:
            for k, x in st.heap[d[1]].items():
                if isinstance(x, tuple) and k not in ('__cls__',) and f in entry_deps(x):
                    return True
    return False


def known_none(st, f):
    for k, v in st.facts.items():
        if k[0] == 'op' and k[1] in ('truth', 'is_none', 'is', 'eq') and any(
                x == ('sym', 's.%s@0' % f, None) or (isinstance(x, tuple) and x[:2] == ('sym', 's.%s@0' % f)) for x in k[2:]):
            if k[1] == 'truth' and v is False or k[1] == 'is_none' and v is True or k[1] in ('is', 'eq') and v is True:
                return True
    return False


def arguments(prog, c, name):
    """(label, arguments, keyword arguments)"""
    if name == 'retag':
        return [('explicit tag', [('dict', {'explicit': K(5)})]), ('implicit tag', [('dict', {'implicit': K(5)})])]
    if name == '__deepcopy__':
        return [('', [('sym', 'memo', frozenset(['dict']))])]
    return [('', [])]


def check(ctx):
    p = ctx.prog
    classes = list(p.asn1_classes())
    concat = p.cls('core.Concat')
    if concat is not None:
        classes += [c for c in p.classes() if c.issub(concat)] if hasattr(p, 'classes') else [concat]
    held = holders(p)
    ctx.sample('fields that can hold containers or values', ', '.join(sorted(held)))
    choice, any_, void = p.cls('core.Choice'), p.cls('core.Any'), p.cls('core.Void')
    seen = {}
    for c in classes:
        if c is void or c.has('_alternatives') and c.issub(choice) and not c.get('_alternatives'):
            continue
        carry = must_carry(p, c)
        ops = tuple((n, c.method(n)) for n in OPS if c.method(n) is not None)
        helpers = tuple(sorted(f.qual for f in copying(c)))
        g = c.lookup('contents')[0]
        sig = (ops, helpers, frozenset(carry), g if isinstance(g, PropertyInfo) else None, c.method('set'), c.issub(p.cls('core.Constructable')))
        if sig not in seen or c.module.name == 'core' and seen[sig][0].module.name != 'core':
            seen[sig] = (c, carry, ops)
    for sig, (c, carry, ops) in sorted(seen.items(), key=lambda x: x[1][0].qual):
        ctx.count('types with their own copying behaviour')
        ctx.sample('must be carried', '%s: %s' % (c.qual, ', '.join(sorted(carry)) or '-'))
        for n, f in ops:
            if n == 'cast':
                cast(ctx, p, c, f)
                continue
            for label, args in arguments(p, c, n):
                operation(ctx, p, c, n, f, label, args, carry, held, any_)
    encodings(ctx)
    ctx.need('copy paths', 60)
    ctx.need('types with their own copying behaviour', 10)


def build_args(st, args):
    out = []
    for a in args:
        if a[0] == 'dict':
            ref = st.alloc(__cls__='dict', __state__='fresh')
            d = st.heap[ref[1]]
            d['__keys__'] = tuple(sorted(a[1]))
            out.append(dict_ref(st, a[1]))
        else:
            out.append(a)
    return out


def dict_ref(st, d):
    from ..flow import Static, wrap
    return wrap({k: v[2] for k, v in d.items()}, 'params')


def operation(ctx, p, c, name, f, label, args, carry, held, any_):
    lazy = lazy_functions(c)
    st = self_state(c)
    h = CopyHooks(c, lazy, True)
    ip = Interp(p, h, budget=400000)
    try:
        outs = ip.run(f, [SELF] + build_args(st, args), st)
    except TooComplex:
        ctx.undec('%s.%s: too many paths' % (c.qual, name))
        return
    ret = [o for o in outs if o.kind == 'return']
    if not ret:
        if not (label.startswith('implicit') and c.has('_alternatives')):       # a choice cannot be tagged implicitly
            ctx.undec('%s.%s: no normal exit' % (c.qual, name))
        return
    what = '%s.%s%s' % (c.qual, name, ' (%s)' % label if label else '')
    for attr, fr, node in h.stored:
        ctx.report('changes the original %s %s' % (f.qual, attr), '%s:%s' % (fr.fi.module.relpath, getattr(node, 'lineno', '?')),
                   '%s stores to `%s` of the original' % (what, attr))
    deep = name != '__copy__'
    if deep:
        for a, node in h.raw:
            ctx.report('shared element %s' % f.qual, '%s:%s' % (f.module.relpath, getattr(node, 'lineno', '?')),
                       '%s puts an element of the original into the new value without copying it' % what)
    tag_from = TAGGING if name in ('__copy__', '__deepcopy__', 'copy') else ()
    cons = c.has('_indefinite')
    concrete_any = c.issub(any_)
    for o in ret:
        ctx.count('copy paths')
        v = o.val
        if v == SELF:
            ctx.report('not a copy %s' % f.qual, f.where, '%s returns the original itself' % what)
            continue
        if v[0] != 'ref' or not isinstance(o.st.heap[v[1]].get('__cls__'), ClassInfo):
            ctx.undec('%s: result not followed' % what)
            continue
        ob = o.st.heap[v[1]]
        if ob['__cls__'] is not c:
            ctx.report('type %s' % f.qual, f.where, '%s returns a %s' % (what, ob['__cls__'].qual))
            continue
        where = '%s:%s' % (f.module.relpath, getattr(o.node, 'lineno', f.node.lineno))
        for g in sorted(carry) + list(tag_from):
            if not c.has(g):
                if g not in carry:
                    continue
            if any_dep(ob.get(g), g, o.st) or known_none(o.st, g):
                continue
            ctx.report('dropped %s %s' % (f.qual, g), where, '%s does not take over `%s`' % (what, g))
        # the contents, and the flags they were encoded with
        cf = 'contents'
        cg = c.lookup('contents')[0]
        if isinstance(cg, PropertyInfo) and '_contents' in ob:
            cf = '_contents'
        has_contents = c.has('contents') and c.has('tag')
        if has_contents and not concrete_any:
            cv = ob.get(cf)
            kids = any(x in ob and any_dep(ob[x], x, o.st) for x in ('children', '_parsed'))
            if (cv is None or cv == NONE) and not kids and not known_none(o.st, 'contents') and not known_none(o.st, '_contents'):
                ctx.report('contents %s' % f.qual, where, '%s does not take over the contents' % what)
            if cons and cv is not None and strip(cv) == ('sym', 's.contents@0', strip(cv)[2] if len(strip(cv)) > 2 else None):
                ind = [k for k, val in o.st.facts.items() if val is True and k[:2] == ('op', 'truth') and k[2][:2] == ('sym', 's._indefinite@0')]
                if ind and not (any_dep(ob.get('_indefinite'), '_indefinite', o.st) or ob.get('_indefinite') == TRUE):
                    ctx.report('chunks %s' % f.qual, where, '%s takes over the chunks of a constructed encoding as if they were the value' % what)
                elif not ind and not any(k[:2] == ('op', 'truth') and k[2][:2] == ('sym', 's._indefinite@0') for k in o.st.facts) and \
                        not any_dep(ob.get('_indefinite'), '_indefinite', o.st):
                    ctx.report('chunks %s' % f.qual, where, '%s takes over the contents without looking whether they are chunks of a '
                               'constructed encoding' % what)
        # the new tagging
        if name == 'retag' and c.has('tag'):
            want = {'explicit': ('tup', (('tup', (K(2), K(5))),)), 'implicit': FALSE} if label.startswith('explicit') else \
                {'class_': K(2), 'tag': K(5), 'implicit': TRUE}
            if concrete_any:
                if label.startswith('explicit') and not any(a == 'explicit' and contains(x, K(5)) for a, x in h.elsewhere):
                    ctx.report('tagging %s' % f.qual, where, '%s does not apply the tag to the parsed value, which is what gets encoded' % what)
            else:
                for g, w in sorted(want.items()):
                    x = m08.field(p, o.st, v, g)
                    if x is not None and x != w and (is_k(x) or x[0] == 'tup' or entry_deps(x)):
                        ctx.report('tagging %s %s' % (f.qual, g), where, '%s leaves `%s` at a value other than the requested one' % (what, g))
        if name == 'untag':
            for g in TAGGING:
                if any_dep(ob.get(g), g, o.st):
                    ctx.report('tagging %s %s' % (f.qual, g), where, '%s keeps `%s`' % (what, g))
        # kept header
        hv = ob.get('_header')
        if hv is not None and any_dep(hv, '_header', o.st) and not concrete_any:
            if not tag_from:
                ctx.report('old header %s' % f.qual, where, '%s keeps the header that encodes the old tagging' % what)
        # independence
        if deep:
            for g, x in sorted(ob.items()):
                if g.startswith('__') or not isinstance(x, tuple):
                    continue
                if x[0] == 'sym' and x[1].startswith('s.') and x[1].endswith('@0') and x[1][2:-2] in held:
                    if known_none(o.st, x[1][2:-2]):
                        continue
                    ctx.report('shared %s %s' % (f.qual, g), where, '%s shares the object held in `%s` with the original' % (what, x[1][2:-2]))
                elif x[0] == 'op' and x[1] == 'copied' and strip(x)[0] == 'sym' and strip(x)[1][2:-2] in held and strip(x)[1].startswith('s.'):
                    ctx.report('shared %s %s' % (f.qual, g), where, '%s copies `%s` only shallowly' % (what, strip(x)[1][2:-2]))
                elif x[0] == 'ref' and isinstance(o.st.heap.get(x[1], {}).get('__elt__'), tuple) and not isinstance(
                        o.st.heap[x[1]].get('__cls__'), ClassInfo) and not h.raw:
                    e = o.st.heap[x[1]]['__elt__']
                    if set(entry_deps(e)) & held and not any(copied(y) for y in all_ops(e)) and g in held:
                        ctx.report('shared %s %s' % (f.qual, g), where, '%s copies `%s` only shallowly' % (what, g))
                elif x[0] == 'op' and x[1] in ('builtin', 'slice') and not any(copied(y) for y in all_ops(x)) and (
                        x[1] == 'slice' or is_k(x[2]) and x[2][2] in ('list', 'tuple', 'dict', 'set', 'OrderedDict')) and \
                        any(y[0] == 'sym' and y[1].startswith('s.') and y[1][2:-2] in held for y in x[2:]):
                    ctx.report('shared %s %s' % (f.qual, g), where, '%s copies `%s` only shallowly' % (what, g))


def all_ops(v):
    for t in walk(v):
        if isinstance(t, tuple) and t and t[0] == 'op':
            yield t


def cast(ctx, p, c, f):
    """Casting keeps tagging, header, contents and the flags of the encoding."""
    targets = [d for d in p.asn1_classes() if d.module.name == 'core' and d.method('cast') is f and d.get('tag') == c.get('tag') and d is not c]
    if not targets or not isinstance(c.get('tag'), int):
        return
    cons = p.cls('core.Constructable')
    for d in targets[:3]:
        h = CopyHooks(c, lazy_functions(c), True)
        ip = Interp(p, h, budget=200000)
        try:
            outs = ip.run(f, [SELF, ('cls', d)], self_state(c))
        except TooComplex:
            ctx.undec('%s.cast: too many paths' % c.qual)
            continue
        what = 'casting %s to %s' % (c.qual, d.qual)
        for attr, fr, node in h.stored:
            ctx.report('changes the original %s %s' % (f.qual, attr), '%s:%s' % (fr.fi.module.relpath, getattr(node, 'lineno', '?')),
                       '%s stores to `%s` of the original' % (what, attr))
        for o in outs:
            if o.kind != 'return' or o.val[0] != 'ref':
                continue
            ctx.count('cast paths')
            ob = o.st.heap[o.val[1]]
            want = list(TAGGING) + ['contents']
            raw = strip(ob.get('contents', NONE))
            raw = raw[0] == 'sym' and raw[1] == 's.contents@0'
            if c.issub(cons) and d.issub(cons) and raw:
                want += ['method', '_indefinite']
            if any_dep(ob.get('_header'), '_header', o.st):
                want.append('_trailer')
            for g in want:
                if g == 'contents' and any(entry_deps(x) & set(['contents', '_bytes', '_native']) or SELF in deps(x) for k, x in ob.items()
                                           if isinstance(x, tuple) and k == 'contents'):
                    continue
                if not any_dep(ob.get(g), g, o.st) and not known_none(o.st, g):
                    ctx.report('dropped %s %s' % (f.qual, g), f.where, '%s does not take over `%s`' % (what, g))
        ctx.need('cast paths', 1)


# ---------------------------------------------------------------- encoding of the copy of a decoded value

class CopyDump(m08.Kept):
    def __init__(self, choice):
        m08.Kept.__init__(self, choice)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        r = CopyHooks.call(self, ip, st, fn, args, kwargs, node, frame) if fn[0] != 'fn' else None
        if r is not None:
            return r
        return m08.Kept.call(self, ip, st, fn, args, kwargs, node, frame)

    opaque_lazy = False


def encodings(ctx):
    p = ctx.prog
    seq, seqof, choice, any_, prim = (p.cls('core.' + n) for n in ('Sequence', 'SequenceOf', 'Choice', 'Any', 'Primitive'))
    cons = p.cls('core.Constructable')
    seen = {}
    for c in p.asn1_classes():
        f = c.method('dump')
        if f is None or c.name == 'Void' or c.issub(choice) and not isinstance(c.get('_alternatives'), (list, tuple)):
            continue
        g = c.lookup('contents')[0]
        sig = (f, g.fget if isinstance(g, PropertyInfo) else None, c.method('_is_mutated'), c.issub(cons), c.issub(choice), c is any_,
               tuple(sorted(x.qual for x in copying(c))))
        if sig not in seen or c.module.name == 'core' and seen[sig].module.name != 'core':
            seen[sig] = c
    for sig, c in sorted(seen.items(), key=lambda x: x[1].qual):
        if c.has('_fields') or c.name in ('Asn1Value',):
            pass
        for label, st, want in m08.entries(p, c, seq, seqof, choice, any_, prim):
            T0 = K(b'')
            if c.issub(any_):
                T0 = ('sym', 's._trailer@0', B)
                st.setf('s', '_trailer', T0)
            f = c.method('__deepcopy__')
            ip = Interp(p, CopyDump(c.issub(choice)), budget=400000)
            try:
                outs = ip.run(f, [SELF, ('sym', 'memo', frozenset(['dict']))], st)
            except TooComplex:
                ctx.undec('copy of %s (%s)' % (c.qual, label))
                continue
            for o in outs:
                if o.kind != 'return' or o.val[0] != 'ref':
                    continue
                s2 = o.st.fork()
                s2.mon = None
                ip2 = Interp(p, CopyDump(c.issub(choice)), budget=400000)
                try:
                    outs2 = ip2.run(c.method('dump'), [o.val], s2)
                except TooComplex:
                    ctx.undec('dump of a copy of %s (%s)' % (c.qual, label))
                    continue
                done = False
                for q in outs2:
                    if q.kind == 'raise' and q.val in ('TypeError', 'AttributeError') or q.kind == 'raise' and not done:
                        continue
                    if q.kind != 'return':
                        continue
                    done = True
                    ctx.count('encodings of copies')
                    if c.issub(any_):
                        for m in (q.st.mon or ()):
                            if list(m) != [m08.H0, m08.C0, T0]:
                                ctx.report('copied any', f.where, 'a copy of a %s that was not read yet decodes %s' % (c.qual, m08.show(list(m))))
                        continue
                    got = [x for x in m08.merge(m08.flat(q.val))]
                    n = sum(1 for x in got if x == m08.C0)
                    if n != 1 or any(x[0] == 'sym' and x not in (m08.C0, m08.H0) for x in got):
                        ctx.report('encoding of a copy %s' % c.qual, f.where,
                                   'the copy of a decoded %s (%s) encodes to %s' % (c.qual, label, m08.show(got)))
                if not done and not c.issub(any_) or c.issub(any_) and not any(q.kind == 'return' for q in outs2):
                    ctx.report('copy fails %s' % c.qual, f.where, 'the copy of a decoded %s (%s) cannot be encoded: %s' % (
                        c.qual, label, ', '.join(sorted(set(str(q.val)[:60] for q in outs2)))))
