"""S01: registries translate one-to-one both ways, in every import/use history."""
from ..model import Program, Evaluator, InstStub, FuncInfo, PropertyInfo, Unk, ClassInfo, _Raise, _Unknown
from ..flow import Interp, TooComplex, State, K
from ..objsem import ObjHooks, SELF

RULE = ('For every class with a value table, under each history (tables prepared as early as possible, after every module load, '
        'parents first or subclasses first; or as late as possible; forward and backward module order), constant propagation through '
        '_setup, map, unmap and the registration methods must give: for every identifier k named n, unmap(n) = j with map(j) = n; '
        'every name map() can give is a key of the reverse table; and set() has a non-failing path for each name.')
EXPLANATION = ('Constant propagation over module initialisation, table preparation and the two lookup functions; the histories that '
               'can matter are the orders of {prepare table of C, extend table of C, prepare table of a relative of C}, all of which '
               'are enumerated.')
ASSUMPTIONS = ['extensions made by user code go through the registration methods']


def tables(p):
    out = []
    for c in p.classes():
        m = c.get('_map')
        if isinstance(m, dict) and c.method('_setup') is not None:
            out.append(c)
    return out


def prepare(p, c):
    ev = Evaluator(p, c.module)
    done = p.__dict__.setdefault('_prepared', set())
    if c in done:
        return
    done.add(c)
    setup = p.modules['core'].env.get('_SETUP_CLASSES')
    if isinstance(setup, dict):
        setup[c] = True
    ev.call(ev.getattr(InstStub(c, [], {}), '_setup'), [], {})


def histories(ctx, base):
    early_parent = lambda p, m: [prepare(p, c) for c in sorted(m.classes, key=lambda c: len(c.mro)) if isinstance(c.get('_map'), dict) and c.method('_setup')]
    early_child = lambda p, m: [prepare(p, c) for c in sorted(m.classes, key=lambda c: -len(c.mro)) if isinstance(c.get('_map'), dict) and c.method('_setup')]
    names = sorted(base.modules)
    yield 'prepared after all imports', Program(), True
    yield 'prepared after each import', Program(after_load=early_parent), True
    yield 'prepared after each import, subclasses first', Program(after_load=early_child), True
    yield 'modules imported in reverse order, prepared after each', Program(order=names[::-1], after_load=early_parent), True


def check(ctx):
    base = ctx.prog
    for label, p, _ in histories(ctx, base):
        ctx.count('histories')
        order = sorted(tables(p), key=lambda c: (len(c.mro), c.qual))
        for c in order:
            try:
                prepare(p, c)
            except (_Raise, _Unknown) as e:
                ctx.report('setup %s' % c.qual, c.where, 'preparing the tables of %s fails: %s' % (c.qual, e))
        for c in order:
            one(ctx, p, c, label)
        for c in order:
            register(ctx, p, c, label)
        shared(ctx, p, order, label)
    accept(ctx, base)
    ctx.need('registries', 60)
    ctx.need('entries', 1500)


def one(ctx, p, c, label):
    m, r = c.get('_map'), c.get('_reverse_map')
    ctx.count('registries')
    if not m:
        return
    if not isinstance(r, dict):
        ctx.report('noreverse %s' % c.qual, c.where, '%s: %s has names but no reverse table' % (label, c.qual))
        return
    ev = Evaluator(p, c.module)
    mp, um = c.method('map'), c.method('unmap')
    for k, n in m.items():
        ctx.count('entries')
        if isinstance(k, Unk) or isinstance(n, Unk):
            ctx.undec('%s entry' % c.qual)
            continue
        if n not in r:
            ctx.report('unreachable %s %s' % (c.qual, n), c.where, '%s: %s names %r as %r, but that name has no identifier' % (label, c.qual, k, n))
            continue
        if m.get(r[n]) != n:
            ctx.report('inverse %s %s' % (c.qual, n), c.where,
                       '%s: %s gives %r for the name %r, which it reads as %r' % (label, c.qual, r[n], n, m.get(r[n])))
        if type(r[n]) is not type(k):
            ctx.report('keytype %s %s' % (c.qual, n), c.where, '%s: identifiers of %s are of mixed types' % (label, c.qual))
        if mp is not None and um is not None:
            try:
                back = ev.call(ev.getattr(c, 'unmap'), [n], {})
                name = ev.call(ev.getattr(c, 'map'), [back], {}) if not isinstance(back, Unk) else back
                fwd = ev.call(ev.getattr(c, 'map'), [k], {})
            except _Raise as e:
                ctx.report('lookup %s %s' % (c.qual, n), c.where, '%s: translating %r / %r in %s raises %s' % (label, k, n, c.qual, e))
                continue
            except _Unknown:
                ctx.undec('%s lookup' % c.qual)
                continue
            if isinstance(name, Unk) or isinstance(fwd, Unk):
                ctx.undec('%s lookup of %r' % (c.qual, n))
                continue
            ctx.count('translations')
            if fwd != n:
                ctx.report('forward %s %s' % (c.qual, n), c.where, '%s: map(%r) gives %r, the table says %r' % (label, k, fwd, n))
            if name != n:
                ctx.report('roundtrip %s %s' % (c.qual, n), c.where, '%s: unmap(%r) gives %r, which maps to %r' % (label, n, back, name))
    for n, k in r.items():
        if k not in m:
            ctx.report('dangling %s %s' % (c.qual, n), c.where, '%s: %s accepts the name %r for %r, which it can not name' % (label, c.qual, n, k))
    if all(isinstance(k, int) for k in m) and any(b.name == 'BitString' for b in c.mro):
        size = c.get('_size')
        if not isinstance(size, int) or size <= max(m):
            ctx.report('size %s' % c.qual, c.where, '%s: named bit %r of %s is outside the %r bits it encodes' % (label, max(m), c.qual, size))
    ctx.sample('registry', '%s: %d identifiers, %d names (%s)' % (c.qual, len(m), len(set(m.values())), label), cap=80)


def register(ctx, p, c, label):
    """Registration points: classmethods of a registry that add an entry."""
    for n, f in sorted(c.attrs.items()):
        if not (isinstance(f, FuncInfo) and f.kind == 'classmethod') or n.startswith('_') or n in ('map', 'unmap', 'load'):
            continue
        ps = f.params()[1:]
        if not set(ps) >= set(['name', 'oid']):
            continue
        ctx.count('registration_points')
        ev = Evaluator(p, c.module)
        vals = {'name': 'sa_new_name', 'oid': '1.2.3.4.5.6'}
        try:
            ev.call(ev.getattr(c, n), [vals.get(x, 33) for x in ps], {})
            a = ev.call(ev.getattr(c, 'unmap'), ['sa_new_name'], {})
            b = ev.call(ev.getattr(c, 'map'), ['1.2.3.4.5.6'], {})
        except _Raise as e:
            ctx.report('register %s.%s' % (c.qual, n), f.where, '%s: after %s.%s the new name is refused (%s)' % (label, c.qual, n, e))
            continue
        if isinstance(a, Unk) or isinstance(b, Unk):
            ctx.undec('%s.%s' % (c.qual, n))
            continue
        if a != '1.2.3.4.5.6' or b != 'sa_new_name':
            ctx.report('register %s.%s' % (c.qual, n), f.where, '%s: after %s.%s the new entry translates to %r / %r' % (label, c.qual, n, a, b))


def shared(ctx, p, order, label):
    """A subclass with its own table must not see or fill its parent's reverse table, and tables are not shared between registries."""
    seen = {}
    for c in order:
        for attr in ('_map', '_reverse_map'):
            t = c.get(attr)
            if not isinstance(t, dict):
                continue
            owner = c.lookup('_map')[1]
            o = seen.setdefault((attr, id(t)), (owner, t))
            if o[0] is not owner:
                ctx.report('shared %s %s %s' % (attr, o[0].qual, c.qual), c.where, '%s: %s and %s share one %s' % (label, o[0].qual, c.qual, attr))


def accept(ctx, p):
    """set() does not refuse a name the registry can give (one representative name per registry)."""
    for c in tables(p):
        s = c.method('set')
        m = c.get('_map')
        if s is None or not m or c.get('tag') is None:
            continue
        n = sorted(set(m.values()), key=str)[0]
        bits = any(b.name == 'BitString' for b in c.mro)
        st = State()
        st.heap['s'] = {'__cls__': c, '__state__': 'entry'}
        v = ('sym', 'value', frozenset(['set'])) if bits else K(n)
        ip = Interp(p, ObjHooks())
        try:
            outs = ip.run(s, [SELF, v], st)
        except TooComplex:
            ctx.undec('%s.set' % c.qual)
            continue
        ctx.count('set_analysed')
        if not any(o.kind == 'return' for o in outs):
            ctx.report('refused %s' % c.qual, s.where, 'every path of %s.set refuses the recognised name %r' % (c.qual, n))
