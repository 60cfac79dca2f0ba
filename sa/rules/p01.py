"""P01: the element parser reads only inside the data and fails only with ValueError / TypeError."""
from ..elements import analysis, analyse_callers
from ..flow import K, op, is_k
from ..arith import Facts, lin

RULE = ('On every path of parser.parse, parser.peek and everything they call: each byte read by index has 0 <= index < length of the '
        'data; each range handed on as header, contents or number lies inside the data (it cannot be silently cut short); the consumed '
        'count is positive and at most the length; only ValueError leaves, or TypeError on a path where the argument is not bytes. Every '
        'other caller of the element parser passes the true length of the data and a non-negative position.')
EXPLANATION = ('Path-sensitive abstract interpretation with linear integer facts (Fourier-Motzkin), inferred loop invariants and an '
               'inferred, checked summary of the recursive parser function.')
ASSUMPTIONS = ['the data object is bytes and does not change during the call', 'bytes slicing and int.from_bytes behave as documented']

READ_KINDS = ('read', 'slice', 'format', 'caller')


def check(ctx):
    p = ctx.prog
    an = analysis(p)
    ctx.count('functions analysed', len(an.funcs))
    for f in an.funcs:
        ctx.sample('function', f.qual)
    for (kind, key), (ok, where, msg) in sorted(an.hooks.events.items()):
        if kind in READ_KINDS:
            ctx.count('obligations')
            ctx.sample('obligation', '%s %s' % (kind, key))
            if not ok:
                ctx.report('%s %s' % (kind, key), where, msg)
    ev, names, und = analyse_callers(p, an)
    for u in und:
        ctx.undec(u)
    for n in names:
        ctx.sample('caller', n)
    ctx.count('callers', len(names))
    for (kind, key), (ok, where, msg) in sorted(ev.items()):
        if kind == 'caller':
            ctx.count('obligations')
            if not ok:
                ctx.report('%s %s' % (kind, key), where, msg)
    # exceptions and consumed count
    for fi, (ip, outs, env) in an.results.items():
        if fi.name == 'emit':
            continue
        for o in outs:
            ctx.count('paths')
            if o.kind == 'raise':
                exc = o.val if isinstance(o.val, str) else str(o.val)
                where = '%s:%s' % (fi.module.relpath, getattr(o.node, 'lineno', fi.node.lineno))
                if exc == 'ValueError':
                    continue
                if exc == 'TypeError' and not_bytes(ip, o.st, env):
                    continue
                ctx.report('raises %s %s' % (exc, fi.qual), where, '%s can raise %s for bytes input' % (fi.qual, exc))
            elif o.kind == 'return' and fi.name in ('parse', 'peek') and not_bytes(ip, o.st, env):
                ctx.report('accepts %s' % fi.qual, fi.where, '%s returns for an argument that is not bytes' % fi.qual)
            elif o.kind == 'return' and fi not in an.rec and fi.name in ('parse', 'peek'):
                bytes_checked(ctx, fi, ip, o, env)
    for r in an.rec:
        ctx.count('summarised functions')
        for t in element_returns(an, r):
            pass
    for fi, ip, o, t, env in an.tuples():
        ctx.count('element results')
        for i, what in ((3, 'header'), (4, 'contents')):
            v = t[1][i]
            if not (v[0] == 'op' and v[1] == 'slice'):
                ctx.undec('%s of an element is not a range of the data in %s' % (what, fi.qual))
                continue
            F = Facts(ip, o.st)
            lo = lin(v[3]) if v[3] != K(None) else ({}, 0)
            hi = lin(v[4]) if v[4] != K(None) else lin(op('len', v[2]))
            ok = lo is not None and hi is not None and F.entails(({}, 0), lo) and F.entails(lo, hi) and F.entails(hi, lin(op('len', v[2])))
            if not ok:
                ctx.report('slice %s %s' % (what, fi.qual), fi.where,
                           '%s hands on %s taken from a range not shown to lie inside the data' % (fi.qual, what))
    for r in an.rec:
        if element_fn(an, r):
            gt = [c for c in an.hooks.sum_candidates(r) if c[3] == 'gt' and c not in an.hooks.dropped]
            le = [c for c in an.hooks.sum_candidates(r) if c[3] == 'le' and c not in an.hooks.dropped]
            if not gt:
                ctx.report('consumed %s' % r.qual, r.where, '%s is not shown to consume at least one byte' % r.qual)
            if not le:
                ctx.report('beyond %s' % r.qual, r.where, '%s is not shown to stop at the end of the data' % r.qual)
    ctx.need('element results', 1)
    ctx.need('obligations', 3)


def element_fn(an, r):
    return any(fi is r for fi, ip, o, t, env in an.tuples())


def element_returns(an, r):
    return []


def not_bytes(ip, st, env):
    for p, v in env.items():
        for c, val in st.facts.items():
            if isinstance(c, tuple) and len(c) == 4 and c[0] == 'op' and c[1] == 'isinstance' and c[2] == v and val is False:
                return True
    return False


def bytes_checked(ctx, fi, ip, o, env):
    v = env.get(fi.params()[0])
    ts = ip.types(v, o.st)
    ctx.count('argument checks')
    if ts is None or not ts <= frozenset(['bytes', 'bytearray', 'str8']):
        ctx.report('type %s' % fi.qual, fi.where, '%s does not verify that its argument is bytes before using it' % fi.qual)
