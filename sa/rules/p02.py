"""P02: decoding terminates within a fixed nesting budget."""
from ..elements import analysis, analyse_callers, reach, recursive, callees

RULE = ('Every while loop of the element parser, of header emission and of the component loops that call the parser has, on every path '
        'through its body, an integer that strictly grows towards a bound the loop does not change (or shrinks towards zero); every '
        'recursive call of the element parser passes an argument that strictly grows and is at most a fixed constant at the call, and '
        'exceeding the constant raises ValueError.')
EXPLANATION = 'Ranking of loops and recursion from linear facts on every path (see P01), over the element parser and its callers.'
ASSUMPTIONS = ['for loops iterate over finite containers']


def check(ctx):
    p = ctx.prog
    an = analysis(p)
    for r in an.rec:
        ctx.count('recursive functions')
        ctx.sample('recursive', r.qual)
    for (kind, key), (ok, where, msg) in sorted(an.hooks.events.items()):
        if kind in ('loop', 'depth'):
            ctx.count('loops' if kind == 'loop' else 'recursive calls')
            ctx.sample(kind, key)
            if not ok:
                ctx.report('%s %s' % (kind, key), where, msg)
    ev, names, und = analyse_callers(p, an)
    for u in und:
        ctx.undec(u)
    for (kind, key), (ok, where, msg) in sorted(ev.items()):
        if kind == 'loop':
            ctx.count('loops')
            ctx.sample(kind, key)
            if not ok:
                ctx.report('%s %s' % (kind, key), where, msg)
    seen = set(k for (kind, k) in an.hooks.events if kind == 'depth')
    for r in an.rec:
        # a recursive function whose recursive call was never reached by the analysis decides nothing
        if not seen:
            ctx.undec('no path reaches the recursive call of %s' % r.qual)
    if any(ok for (kind, k), (ok, w, m) in an.hooks.events.items() if kind == 'depth'):
        for fi, (ip, outs, env) in an.results.items():
            if fi in an.rec:
                limit(ctx, an, fi, ip, outs, env)
    ctx.need('loops', 3)


def limit(ctx, an, fi, ip, outs, env):
    """Exceeding the budget is a ValueError."""
    for o in outs:
        if o.kind == 'raise' and o.val != 'ValueError':
            ctx.report('limit %s %s' % (o.val, fi.qual), '%s:%s' % (fi.module.relpath, getattr(o.node, 'lineno', fi.node.lineno)),
                       '%s leaves with %s instead of ValueError' % (fi.qual, o.val))
    ctx.count('budget checks')
