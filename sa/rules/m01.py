"""M01: assigning a new value leaves nothing of the old one behind (non-interference over set())."""
from ..model import FuncInfo, PropertyInfo
from ..flow import Interp, TooComplex, FALSE
from ..objsem import ObjHooks, self_state, SELF, readers, entry_syms, fact_syms, CONFIG_FIELDS

RULE = ('For every type, set() is interpreted from an arbitrary entry state (each instance field is an opaque entry symbol, the '
        'argument another) and, from every normal exit, dump() and every argument-less property/dunder reader. Neither the '
        'result nor a branch newly decided in the reader may depend on an entry field other than the tagging configuration.')
EXPLANATION = ('Path-sensitive dataflow non-interference: what a reader returns after set() must be a function of the assigned value '
               '(and of how the type is tagged), never of the state before the assignment.')
ASSUMPTIONS = ['conversion helpers in util/parser/_iri/_inet are pure functions of their arguments']


def groups(ctx):
    """One representative per distinct behaviour (resolved set + readers)."""
    p = ctx.prog
    seen = {}
    for c in p.asn1_classes():
        s = c.method('set')
        if s is None:
            continue
        sig = (s.qual, tuple((n, r.qual) for n, r in readers(c)), bool(c.get('_map')), c.get('explicit') is not None)
        seen.setdefault(sig, []).append(c)
    return seen


def one(ctx, classes):
    p = ctx.prog
    ctor = p.cls('core.Constructable')
    conc = [c for c in classes if c.get('tag') is not None or c.issub(p.cls('core.Any')) or c.issub(p.cls('core.Choice'))]
    if not conc:
        return
    c = conc[0]
    s = c.method('set')
    ip = Interp(p, ObjHooks())
    try:
        outs = ip.run(s, [SELF, ('sym', 'value', None)], self_state(c))
    except TooComplex:
        ctx.undec('%s.set: too many paths' % c.qual)
        return
    norm = [o for o in outs if o.kind == 'return']
    ctx.count('types_with_own_behaviour')
    ctx.count('normal_exits_of_set', len(norm))
    if c.issub(ctor):
        for o in norm:
            ctx.count('exits with the form of the encoding checked')
            if ip.truth(ip.resolve(o.st.heap['s'].get('_indefinite', FALSE), o.st), o.st) is not False:
                ctx.report('stale %s form' % s.qual, '%s:%s' % (s.where, ''), 'after %s.set(value), a value that was of indefinite length is still '
                           'taken for one' % c.qual)
    for n, r in readers(c):
        for o in norm:
            st = o.st.fork()
            pref = set(st.facts)
            ip2 = Interp(p, ObjHooks())
            try:
                outs2 = ip2.run(r, [SELF], st)
            except TooComplex:
                ctx.undec('%s.%s after set: too many paths' % (c.qual, n))
                continue
            ctx.count('reader_runs')
            for q in outs2:
                if q.kind != 'return':
                    continue
                ctx.count('reader_paths')
                dep = {}
                for f in entry_syms(q.val):
                    dep[f] = 'its result is built from'
                for f, ks in fact_syms(k for k in q.st.facts if k not in pref).items():
                    dep.setdefault(f, 'it still branches on')
                for f in list(dep):
                    if f in CONFIG_FIELDS:
                        del dep[f]
                    elif f == 'method' and (not c.issub(ctor) or q.st.facts.get(('op', 'truth', ('sym', 's._indefinite@0', frozenset(['bool'])))) is False):
                        del dep[f]
                for f, how in sorted(dep.items()):
                    ctx.report('stale %s %s' % (s.qual, f), '%s:%s' % (s.where, ''),
                               'after %s.set(value), %s.%s: %s the previous `%s` (%d types share this behaviour, e.g. %s)'
                               % (c.qual, c.qual, n, how, f, len(classes), ', '.join(x.qual for x in classes[:4])))
    ctx.sample('set analysed', '%s via %s: %d exits, readers %s' % (c.qual, s.qual, len(norm), ','.join(n for n, _ in readers(c))[:120]))


def check(ctx):
    ctx.spread([cs for _, cs in sorted(groups(ctx).items(), key=lambda x: x[1][0].qual)], one)
    ctx.need('types_with_own_behaviour', 20)
