"""M03: container edits show in the next encoding and in the native view."""
from ..model import FuncInfo, ClassInfo
from ..flow import Interp, TooComplex, State, NONE, TRUE, FALSE, K, op, deps, is_k
from ..objsem import EditHooks, ObjHooks, SELF, entry_syms, fact_syms, lazy_functions, MUTATORS, FILLED, entry_deps

RULE = ('(a) every normal exit of a container mutator that changed the list of components leaves the mutation flag set and the '
        'native view either unset or updated with the new component; (b) the mutation test answers yes whenever the flag is set '
        'or any component that is a structure (directly or as the chosen alternative) answers yes; (c) the encoding produced '
        'after such an exit depends on no cached contents, header or trailer.')
EXPLANATION = ('Typestate over the mutation flag plus dataflow non-interference of dump() after an edit, for every container class '
               'that defines or inherits a mutator; decoding helpers are summarised, everything else is interpreted.')
ASSUMPTIONS = ['components held inside opaque octet strings need dump(force=True), as documented']


class H(EditHooks):
    """Phase 1: the mutator itself."""

    def held(self, st, cont):
        if cont[0] == 'ref':
            for f, v in st.heap.get('s', {}).items():
                if v == cont:
                    return f
            return None
        if cont[0] == 'sym' and cont[1].startswith('s.') and cont[1].endswith('@0'):
            return cont[1][2:-2]
        return None

    def note(self, st, f, what, val, node, frame):
        st.mon = (st.mon or frozenset()) | frozenset([(f, what, val, frame.fi.qual, getattr(node, 'lineno', 0))])

    def on_substore(self, ip, st, cont, key, val, node, frame):
        f = self.held(st, cont)
        if f in ('children', '_native') and not any(x.fi in self.lazy for x in frame.stack()):
            self.note(st, f, 'store', val, node, frame)
            if f == 'children':
                st.setf('s', '_last', val)

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        f = self.held(st, cont)
        if f in ('children', '_native') and not any(x.fi in self.lazy for x in frame.stack()):
            self.note(st, f, meth, args[-1] if args else NONE, node, frame)
            if f == 'children':
                st.setf('s', '_last', args[-1] if args else NONE)

    def on_delete(self, ip, st, cont, key, node, frame):
        self.on_mutate(ip, st, cont, 'delete', [], node, frame)

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj == SELF and attr == 'children' and not any(x.fi in self.lazy for x in frame.stack()):
            self.note(st, 'children', 'replace', val, node, frame)


def heap_deps(st, v, seen=None):
    """Entry symbols a value is built from, through containers and objects created on the way."""
    seen = set() if seen is None else seen
    out = set()
    for d in deps(v):
        if d[0] != 'ref':
            out.add(d)
        elif d != SELF and d[1] not in seen:
            seen.add(d[1])
            for f, w in st.heap.get(d[1], {}).items():
                if isinstance(w, tuple):
                    out |= heap_deps(st, w, seen)
    return out


class D(EditHooks):
    """Phase 2: dump() after an edit; the re-encoding helpers are interpreted. The rebuilding helpers are interpreted once per
    entry and their exits projected on the cached fields, which keeps the number of paths small."""
    max_states = 48
    KEEP = ('_contents', '_header', '_trailer', '_mutated', 'contents')

    def __init__(self, cls, lazy, project):
        EditHooks.__init__(self, cls, lazy)
        self.project = project
        self.busy = set()

    def inline(self, ip, fi, bound, frame):
        if not ObjHooks.inline(self, ip, fi, bound, frame):
            return False
        if bound == SELF:
            return fi.node.name not in ('_parse_children', '_determine_spec', '_make_value', '_setup', '_lazy_child')
        # a base class method called on this object by name
        return bound is None and fi.cls is not None and fi.cls in self.cls.mro and fi.node.name == 'dump'

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] != 'fn':
            return None
        if fn[2] == SELF and fn[1] in self.project and fn[1] not in self.busy:
            return self.summary(ip, st, fn, args, kwargs, node, frame)
        if fn[2] == SELF and not self.inline(ip, fn[1], SELF, frame):
            self.filled(st, fn[1])
            return [(op('packcall', fn[1].qual, SELF, *args), st)]
        return None

    def summary(self, ip, st, fn, args, kwargs, node, frame):
        fi = fn[1]
        self.busy.add(fi)
        frame.live_env = st.env
        try:
            outs = ip.call_function(fi, [SELF] + list(args), kwargs, st, node, frame)
        finally:
            self.busy.discard(fi)
        res = {}
        for o in outs:
            if o.kind == 'raise':
                frame.raises.append((o.val, o.st, o.node or node))
                continue
            if o.kind != 'return':
                continue

            def flat(v):
                if not isinstance(v, tuple) or v[0] in ('k', 'sym'):
                    return v
                return op('built', *sorted(heap_deps(o.st, v), key=str)) if v[0] == 'op' else v
            fields = tuple((f, flat(o.st.heap['s'][f])) for f in self.KEEP if f in o.st.heap['s'])
            val = flat(o.val)
            facts = {}
            for k, v in o.st.facts.items():
                ds = deps(k)
                if k in st.facts or (ds and all(d[0] == 'sym' and d[1].startswith('s.') and d[1].endswith('@0') for d in ds)):
                    facts[k] = v
            key = (val, fields, tuple(sorted(map(str, facts.items()))))
            if key not in res:
                n = st.fork()
                for f, v in fields:
                    n.setf('s', f, v)
                n.facts = dict(facts)
                res[key] = (val, n)
        return list(res.values())


def containers(ctx):
    p = ctx.prog
    bases = (p.cls('core.Sequence'), p.cls('core.SequenceOf'))
    seen = {}
    for c in p.asn1_classes():
        if not any(c.issub(b) for b in bases):
            continue
        sig = tuple(sorted((n, v.qual if isinstance(v, FuncInfo) else v.fget.qual) for n, v in members(c).items()))
        seen.setdefault(sig, []).append(c)
    return [(lst[0], lst) for sig, lst in sorted(seen.items(), key=lambda x: x[1][0].qual)]


def members(c):
    from ..model import PropertyInfo
    out = {}
    for b in c.mro:
        for n, v in b.attrs.items():
            if n in out:
                continue
            if n in MUTATORS + ('dump', '_set_contents', '_is_mutated', '_lazy_child', '__iter__', '__len__', '_parse_children') and isinstance(v, FuncInfo):
                out[n] = v
            elif n in ('contents', 'native') and isinstance(v, PropertyInfo):
                out[n] = v
    return out


def check(ctx):
    p = ctx.prog
    for c, lst in containers(ctx):
        lazy = lazy_functions(c)
        for name in MUTATORS:
            f = c.method(name)
            if f is None:
                continue
            st = State()
            st.heap['s'] = {'__cls__': c, '__state__': 'entry'}
            ip = Interp(p, H(c, lazy))
            args = [SELF] + [('sym', 'arg%d' % i, None) for i in range(len(f.params()) - 1)]
            try:
                outs = ip.run(f, args, st)
            except TooComplex:
                ctx.undec('%s.%s' % (c.qual, name))
                continue
            ctx.count('container_mutators')
            n_edit = 0
            for o in outs:
                if o.kind != 'return':
                    continue
                mon = o.st.mon or frozenset()
                edits = [m for m in mon if m[0] == 'children']
                if not edits:
                    # a mutator exit that changed nothing: only acceptable if some path edits
                    ctx.count('exits_without_edit')
                    continue
                n_edit += 1
                ctx.count('edit_exits')
                flag = o.st.heap['s'].get('_mutated')
                if flag is None or ip.truth(flag, o.st) is not True:
                    ctx.report('flag %s' % f.qual, '%s:%s' % (f.where, edits[0][4]),
                               '%s.%s changes the components on a path that does not leave the mutation flag set' % (c.qual, name))
                nat = o.st.heap['s'].get('_native')
                cur = nat if nat is not None else ('sym', 's._native@0', None)
                refreshed = [m for m in mon if m[0] == '_native']
                entry_none = any(k[0] == 'op' and k[1] == 'is' and k[2][0] == 'sym' and k[2][1] == 's._native@0' and v is True
                                 for k, v in o.st.facts.items()) or \
                    any(k[0] == 'op' and k[1] == 'truth' and k[2][0] == 'sym' and k[2][1] == 's._native@0' and v is False
                        for k, v in o.st.facts.items())
                if cur == NONE or entry_none:
                    continue
                if not refreshed:
                    ctx.report('native %s' % f.qual, '%s:%s' % (f.where, edits[0][4]),
                               '%s.%s changes the components but leaves a cached native view untouched on some path' % (c.qual, name))
            if not n_edit:
                ctx.report('noedit %s' % f.qual, f.where, '%s.%s never changes the list of components on any normal path' % (c.qual, name))
            ctx.sample('mutator', '%s.%s: %d edit exits' % (c.qual, name, n_edit))
        dump_after_edit(ctx, c, lazy)
        mutation_test(ctx, c)
    choice_dump(ctx)
    ctx.need('container_mutators', 8)
    ctx.need('dump_paths', 4)


def entry_children(c, **extra):
    st = State()
    st.heap['s'] = dict({'__cls__': c, '__state__': 'entry', 'children': ('sym', 's.children@0', FILLED['children'])}, **extra)
    return st


CACHED = ('_contents', 'contents', '_header', '_trailer')


def dump_after_edit(ctx, c, lazy):
    p = ctx.prog
    f = c.method('dump')
    for fn, label in ((f, 'dump'), (getter(c, 'contents'), 'contents')):
        if fn is None:
            continue
        st = entry_children(c, _mutated=TRUE)
        st.facts[('op', 'is', ('sym', 's._trailer@0', None), NONE)] = False
        get = getter(c, 'contents')
        ip = Interp(p, D(c, lazy, set(x for x in (get, c.method('_set_contents')) if x is not None and x is not fn)), budget=2000000)
        try:
            outs = ip.run(fn, [SELF] + ([('sym', 'force', frozenset(['bool']))] if label == 'dump' else []), st)
        except TooComplex:
            ctx.undec('%s.%s' % (c.qual, label))
            continue
        for o in outs:
            if o.kind != 'return':
                continue
            ctx.count('dump_paths')
            bad = set(x for x in entry_deps(o.val) if x in CACHED)
            for b in sorted(bad):
                ctx.report('stale %s %s' % (fn.qual, b), fn.where,
                           '%s of %s after an edit is still built from the cached `%s`' % (label, c.qual, b))
            if label == 'contents' and o.val[:2] != ('op', 'built') and 's.children@0' not in str(o.val) and not any(d[0] == 'ref' for d in deps(o.val)):
                ctx.report('rebuild %s' % fn.qual, fn.where, 'contents of %s after an edit is not rebuilt from the components' % c.qual)
            m = o.st.heap['s'].get('_mutated')


def getter(c, name):
    from ..model import PropertyInfo
    v, ow = c.lookup(name)
    return v.fget if isinstance(v, PropertyInfo) else None


class M(ObjHooks):
    """Phase 3: the mutation test, judged through `contents`, over concrete small shapes."""
    max_recursion = 6

    def inline(self, ip, fi, bound, frame):
        return ObjHooks.inline(self, ip, fi, bound, frame)

    def entry_objs(self, st):
        return tuple(st.heap)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[2] is not None and fn[2][0] == 'ref' and fn[2] != SELF and fn[1].name == 'dump':
            return [(('sym', 'enc:' + fn[2][1], frozenset(['bytes'])), st)]
        return None


def mutation_test(ctx, c):
    p = ctx.prog
    f = getter(c, 'contents')
    seq, seqof, choice, void = p.cls('core.Sequence'), p.cls('core.SequenceOf'), p.cls('core.Choice'), p.cls('core.Integer')

    def shape(kids, flag):
        st = State()
        st.heap['s'] = {'__cls__': c, '__state__': 'entry', '_mutated': flag}
        refs = []
        for i, (k, m, inner) in enumerate(kids):
            d = {'__cls__': k, '__state__': 'entry', '_mutated': m, 'children': NONE}
            if inner is not None:
                st.heap['g%d' % i] = {'__cls__': inner[0], '__state__': 'entry', '_mutated': inner[1], 'children': NONE}
                if k is choice:
                    d = {'__cls__': k, '__state__': 'entry', '_parsed': ('ref', 'g%d' % i)}
                else:
                    st.heap['gl%d' % i] = {'__cls__': 'list', '__const__': (('ref', 'g%d' % i),), '__elt__': ('ref', 'g%d' % i)}
                    d['children'] = ('ref', 'gl%d' % i)
            st.heap['c%d' % i] = d
            refs.append(('ref', 'c%d' % i))
        st.heap['l'] = {'__cls__': 'list', '__const__': tuple(refs), '__elt__': refs[0] if refs else None}
        st.setf('s', 'children', ('ref', 'l'))
        return st
    prim = p.cls('core.Integer')
    shapes = [
        ('own flag', [], TRUE, True),
        ('own flag, clean structure', [(seq, FALSE, None)], TRUE, True),
        ('edited sequence component', [(seq, TRUE, None)], FALSE, True),
        ('edited list component', [(seqof, TRUE, None)], FALSE, True),
        ('edited then clean', [(seq, TRUE, None), (seq, FALSE, None)], FALSE, True),
        ('clean then edited', [(seqof, FALSE, None), (seqof, TRUE, None)], FALSE, True),
        ('edited two levels down', [(seq, FALSE, (seq, TRUE))], FALSE, True),
        ('edited list two levels down', [(seqof, FALSE, (seqof, TRUE))], FALSE, True),
        ('edited structure chosen in a choice', [(choice, NONE, (seq, TRUE))], FALSE, True),
        ('edited list chosen in a choice', [(choice, NONE, (seqof, TRUE))], FALSE, True),
        ('nothing edited', [(seq, FALSE, None)], FALSE, False),
    ]
    for label, kids, flag, want in shapes:
        st = shape(kids, flag)
        ip = Interp(p, M())
        try:
            outs = ip.run(f, [SELF], st)
        except TooComplex:
            ctx.undec('%s._is_mutated' % c.qual)
            continue
        for o in outs:
            if o.kind != 'return':
                continue
            ctx.count('mutation_test_paths')
            stale = '_contents' in entry_deps(o.val)
            if stale and want:
                ctx.report('mutated %s %s' % (f.qual, label), f.where, 'with %s, %s still answers with the cached contents' % (label, f.qual))
            elif not stale and not want:
                ctx.report('mutated %s %s' % (f.qual, label), f.where, 'with %s, %s re-encodes' % (label, f.qual))


def choice_dump(ctx):
    """The header of an explicitly tagged choice depends on the length of the chosen value."""
    p = ctx.prog
    c = p.cls('core.Choice')
    f = c.method('dump')
    st = State()
    seq = p.cls('core.Sequence')
    st.heap['s'] = {'__cls__': c, '__state__': 'entry', '_parsed': ('ref', 'k')}
    st.heap['k'] = {'__cls__': seq, '__state__': 'entry', '_mutated': TRUE, 'children': ('sym', 'k.children@0', FILLED['children'])}

    class C(ObjHooks):
        def call(self, ip, st, fn, args, kwargs, node, frame):
            if fn[0] == 'fn' and fn[2] == ('ref', 'k'):
                return [(('sym', 'k.encoding', frozenset(['bytes'])), st)]
    ip = Interp(p, C())
    try:
        outs = ip.run(f, [SELF], st)
    except TooComplex:
        ctx.undec('core.Choice.dump')
        return
    for o in outs:
        if o.kind != 'return':
            continue
        ctx.count('choice_dump_paths')
        bad = [x for x in entry_deps(o.val) if x in CACHED]
        same = [k for k, v in o.st.facts.items() if v is True and k[0] == 'op' and k[1] == 'eq' and 'k.encoding' in str(k) and 's._contents@0' in str(k)]
        if same:
            continue        # the chosen value still has the encoding the header was made for
        for b in bad:
            ctx.report('stale core.Choice.dump %s' % b, f.where,
                       'the encoding of an explicitly tagged choice whose chosen structure was edited is still built from the cached `%s`' % b)
