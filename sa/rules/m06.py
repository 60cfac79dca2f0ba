"""M06: a lazily computed result is only remembered once it is complete."""
from ..flow import Interp, TooComplex, NONE, op, is_k, wrap
from ..model import FuncInfo, PropertyInfo
from ..objsem import SELF
from ..reading import Reading, entry_points, start
from .m05 import within

RULE = ('Every read is interpreted with every operation that can fail. On each exceptional exit, a field stored on the way is incomplete if '
        'the same computation goes on building it after the store (elements added to the container it holds, the field stored again, or, '
        'for a flag, other fields stored by the function that set it). The read is then repeated from the state the failure left behind: no path '
        'may return normally without storing the incomplete field anew.')
EXPLANATION = ('Typestate publish -> complete on every memo field, with implicit exceptions; the second request is interpreted from the '
               'exact state of each exceptional exit of the first.')
ASSUMPTIONS = ['an operation on a component, other than on a value of known built-in type, can fail']


class Memo(Reading):
    """mon: fields stored so far, each with the operations that could have failed since (tracked only for `watch`)."""

    def __init__(self, cls, split=None, watch=None, asked=None):
        Reading.__init__(self, cls, split)
        self.watch, self.asked = watch, asked
        self.late = {}          # field -> {what: where} it is still being built after it was stored
        self.gap = {}           # (field, failing operation) -> (what, where): the building goes on after that operation

    def unset(self, name):
        return unset(self.cls, name)

    def note(self, f, nodes, what, node, frame):
        w = (what, frame.fi, getattr(node, 'lineno', frame.fi.node.lineno))
        self.late.setdefault(f, w)
        for n in nodes:
            self.gap.setdefault((f, n), w)

    def getattr(self, ip, st, o, attr, node, frame):
        if self.asked is not None and o == SELF and attr == self.asked:
            st.mon = (st.mon or frozenset()) | frozenset([('#read', NONE, frozenset(), None)])
        return Reading.getattr(self, ip, st, o, attr, node, frame)

    def implicit(self, ip, st, what, info, node, frame):
        if what == 'iter' and (made(info[0]) or ip.types(bare(info[0]), st) is not None):
            return ()               # what a function of the library returns to be iterated can be iterated
        if what == 'getitem' and info[0][0] == 'ref' and not info[0][1] in self.entry_objs(st):
            return ()               # tables the computation has filled itself
        es = Reading.implicit(self, ip, st, what, info, node, frame)
        if es and st.mon and self.watch:
            st.mon = frozenset((f, v, ns | frozenset([id(node)]) if f in self.watch else ns, w) for f, v, ns, w in st.mon)
        return es

    def on_raise(self, ip, st, exc, node, frame):
        if st.mon and self.watch:
            st.mon = frozenset((f, v, ns | frozenset([id(node)]) if f in self.watch else ns, w) for f, v, ns, w in st.mon)

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj != SELF:
            return
        pub = st.mon or frozenset()
        name = attr if isinstance(attr, str) else '(computed name)'
        rest = frozenset(x for x in pub if x[0] != name)
        for f, v, ns, w in pub:
            if f == '#read':
                continue
            if f == name:
                if val != v and val != self.unset(name):
                    self.note(f, ns, 'stored again', node, frame)
            elif is_k(v) and val != self.unset(name) and any(g.fi is w for g in frame.stack()):
                self.note(f, ns, 'followed by %s' % name, node, frame)
        st.mon = rest if val == self.unset(name) else rest | frozenset([(name, val, frozenset(), frame.fi)])

    def filled_in(self, ip, st, cont, node, frame):
        for f, v, ns, w in st.mon or ():
            if v == cont and cont[0] == 'ref':
                self.note(f, ns, 'filled', node, frame)

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        self.filled_in(ip, st, cont, node, frame)

    def on_substore(self, ip, st, cont, key, val, node, frame):
        ob = st.heap.get(cont[1], {}) if cont[0] == 'ref' else {}
        if key is not None:
            olds = [op('index', cont, key), op('elem', cont), ob.get('__elt__')] + list(ob.get('__const__') or ())
            if any(o is not None and o[0] != 'k' and within(val, o) for o in olds) or decoded(ip, st, val):
                return              # the same component, decoded
        self.filled_in(ip, st, cont, node, frame)


def bare(v):
    while v[0] == 'op' and v[1] == 'builtin' and len(v) > 3:
        v = v[3]
    return v


def made(v):
    v = bare(v)
    return v[0] == 'ref' or v[0] == 'op' and v[1] == 'packcall' or v[0] == 'op' and v[1] in ('index', 'elem', 'item') and \
        isinstance(v[2], tuple) and v[2][0] == 'op' and made(v[2])


def decoded(ip, st, val):
    """built from a parsed but undecoded component"""
    return val[0] == 'op' and val[1] == 'packcall' and val[2] in ('core._build',)


def unset(cls, name):
    """The value that says the field has not been computed yet."""
    d = wrap(cls.get(name)) if cls.has(name) else NONE
    return d if is_k(d) else NONE


def stored(c, st):
    return sorted(f for f in st.heap['s'] if isinstance(f, str) and not f.startswith('__') and st.heap['s'][f] != unset(c, f))


PLANS = ((None, 64, 120000, 6), ({}, 64, 120000, 6), ({}, 6, 120000, 2))


def run(p, c, f, st0, watch, plans=PLANS, asked=None):
    """Interpret one request; on the cheaper plans calls on the value itself are opaque and returned in `split`."""
    for split, states, budget, rounds in plans:
        split = None if split is None else {}
        h = Memo(c, split, watch, asked)
        h.max_states = states
        h.max_rounds = rounds
        ip = Interp(p, h, budget=budget)
        try:
            return h, ip.run(f, st0[0], st0[1].fork()), ((split, states, budget * 3, rounds), (split, 6, budget * 3, 1)), split or {}
        except TooComplex:
            continue
    return None


def check(ctx):
    ctx.spread(entry_points(ctx.prog, list(ctx.prog.asn1_classes())), one)
    ctx.need('reads analysed', 120)


def one(ctx, point):
    p = ctx.prog
    c, n, f, shared = point
    first = start(c, n, f)
    plan = None
    work, seen = [(f, first)], set()
    while work:
        g, st0 = work.pop(0)
        facts = frozenset(st0[1].facts.items())
        if (g, facts) in seen:
            continue
        seen.add((g, facts))
        r = run(p, c, g, st0, None)
        if r is None:
            ctx.undec('%s.%s: too many paths' % (c.qual, g.node.name))
            continue
        h, outs, again, split = r
        if plan is None:
            plan = again            # how the read itself can be analysed
        for k in sorted(split, key=lambda x: x.qual):
            nxt = start(c, k.node.name, k)
            nxt[1].facts.update(split[k])
            work.append((k, nxt))
        ctx.count('reads analysed' if g is f else 'computations analysed apart')
        ctx.count('failing exits', sum(1 for o in outs if o.kind == 'raise'))
        watch = frozenset(f2 for o in outs if o.kind == 'raise' for f2 in stored(c, o.st) if f2 in h.late)
        if not watch:
            continue
        ctx.count('computations that build a field step by step')
        r = run(p, c, g, st0, watch, again)
        if r is None:
            ctx.undec('%s.%s: too many paths' % (c.qual, g.node.name))
            continue
        h, outs, _, _ = r
        repeat(ctx, c, n, f, first[0], plan, h, outs, watch)


def repeat(ctx, c, n, f, args, plan, h, outs, watch):
    """The read, requested again in every state a failure leaves a half-built field in."""
    done = set()
    for o in outs:
        if o.kind != 'raise':
            continue
        for fld in sorted(watch & frozenset(stored(c, o.st))):
            why = h.gap.get((fld, id(o.node)))
            if why is None or (fld, why) in done:
                continue
            ctx.count('half-built states')
            st = o.st.fork()
            st.mon = None
            before = st.heap['s'][fld]
            r2 = run(ctx.prog, c, f, (args, st), None, plan, fld)
            if r2 is None:
                ctx.undec('%s.%s again: too many paths' % (c.qual, n))
                continue
            for o2 in r2[1]:
                if o2.kind == 'return' and o2.st.heap['s'].get(fld) == before and \
                        set(m[0] for m in o2.st.mon or ()) & {fld, '#read'} == {'#read'}:
                    done.add((fld, why))
                    ctx.report('partial %s %s' % (why[1].qual, fld), '%s:%s' % (why[1].module.relpath, why[2]),
                               '%s.%s: when line %s fails with %s, `%s` stays stored although it is not complete (it is %s in %s, line %s), '
                               'and the next request returns normally without computing it' % (
                                   c.qual, n, getattr(o.node, 'lineno', '?'), o.val, fld, why[0], why[1].qual, why[2]))
                    break
