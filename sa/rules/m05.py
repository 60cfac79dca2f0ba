"""M05: reading or comparing a value never changes what it encodes."""
from ..flow import Interp, TooComplex, NONE, K, op, is_k
from ..model import FuncInfo, PropertyInfo
from ..objsem import SELF, MUTATORS
from ..reading import Reading, OTHER, entry_points, encoding_fields, reached, start

RULE = ('Every getter, comparison, container and conversion method and every other public method of every type that is not an edit, an '
        'encoding or a copy is interpreted from an arbitrary state of the value and of the other operand. On no path may it store to a '
        'field the encoding is computed from, unless the field was not computed yet or the stored value is the held one or the same '
        'component in decoded form; nor store to, delete from, mutate, or call an editing method on anything reached from the value, the '
        'other operand or an argument.')
EXPLANATION = ('Path-sensitive write-effect analysis; the fields the encoding is computed from are those the encoder (dump and the contents '
               'getter) loads, per class. Components read by name are opaque values that remember what they were reached from.')
ASSUMPTIONS = ['re-encoding of edited values by the encoder itself is judged by M03 and M08', 'a component reached through a read is '
               'only read by methods whose names are not those of editing methods']


class Effects(Reading):
    def __init__(self, cls, encf, out, split=None):
        Reading.__init__(self, cls, split)
        self.encf, self.out = encf, out

    def bad(self, kind, what, node, frame):
        self.out.append((kind, what, frame.fi, getattr(node, 'lineno', frame.fi.node.lineno)))

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj in (SELF, OTHER):
            if attr not in self.encf:
                return
            held = ('sym', '%s.%s@0' % (obj[1], attr), None)
            if val[0] == 'sym' and val[1] == held[1]:
                return
            if self.uncomputed(ip, st, obj[1], attr) or self.uncomputed(ip, st, obj[1], 'contents') or self.uncomputed(ip, st, obj[1], '_contents'):
                return              # nothing to change: the field, or the whole value, did not exist yet
            self.bad('store', '%s.%s' % ('the other operand' if obj == OTHER else 'self', attr), node, frame)
        elif obj[0] != 'ref' and reached(obj):
            self.bad('store', '.%s of %s' % (attr if isinstance(attr, str) else '?', show(obj)), node, frame)

    def uncomputed(self, ip, st, oid, attr):
        """Was the field None when the read started?"""
        for k, v in st.facts.items():
            if k[0] == 'op' and k[1] == 'is' and k[3] == NONE and k[2][0] == 'sym' and k[2][1] == '%s.%s@0' % (oid, attr):
                return v is True
        return False

    def held(self, st, cont):
        """(object, field) of the container when it belonged to an operand before the read"""
        if cont[0] == 'sym' and cont[1].endswith('@0') and '.' in cont[1]:
            o, f = cont[1][:-2].split('.', 1)
            if o in ('s', 'x'):
                return o, f
        return None

    def on_substore(self, ip, st, cont, key, val, node, frame):
        h = self.held(st, cont)
        if h is None:
            if cont[0] != 'ref' and reached(cont):
                self.bad('store', 'an item of %s' % show(cont), node, frame)
            return
        olds = [] if key is None else [op('index', cont, key)]
        if key is not None and key[0] == 'op' and key[1] == 'loop':
            olds.append(op('elem', cont))       # for index, element in enumerate(...)
        for old in olds:
            if within(val, old) and is_tuple(ip, st, old):
                return              # the same component, decoded
        self.bad('store', 'an item of self.%s' % h[1], node, frame)

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        h = self.held(st, cont)
        if h is not None:
            self.bad('call', 'self.%s.%s()' % (h[1], meth), node, frame)
            return
        if cont[0] != 'ref' and reached(cont):
            self.bad('call', '%s() on %s' % (meth, show(cont)), node, frame)

    def on_delete(self, ip, st, cont, key, node, frame):
        h = self.held(st, cont)
        if h is not None or cont[0] != 'ref' and reached(cont):
            self.bad('delete', 'an item of %s' % show(cont), node, frame)

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'fn' and fn[2] in (SELF, OTHER) and fn[1].name == 'parse' and fn[1].cls is not None and fn[1].cls.qual == 'core.Any':
            ip.implicit('opaque', (fn,) + tuple(args), st, node, frame)
            return [(op('item', fn[2], K('parsed')), st)]      # an element of any type encodes the same once decoded (M08)
        if fn[0] == 'fn' and fn[2] in (SELF, OTHER) and fn[1].name == 'dump' and forced(ip, st, list(args), kwargs):
            self.bad('call', 'dump() with forced re-encoding on %s' % show(fn[2]), node, frame)
        return Reading.call(self, ip, st, fn, args, kwargs, node, frame)

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        if name == 'dump' and o[0] != 'ref' and reached(o) and forced(ip, st, list(args), kwargs):
            self.bad('call', 'dump() with forced re-encoding on %s' % show(o), node, frame)
        if name in MUTATORS and o[0] != 'ref' and reached(o):
            self.bad('call', '%s() on %s' % (name, show(o)), node, frame)
        return None


def forced(ip, st, args, kwargs):
    vs = args + list(kwargs.values())
    return bool(vs) and ip.truth(ip.resolve(vs[0], st), st) is not False


def is_tuple(ip, st, v):
    for k, t in st.facts.items():
        if t is True and k[0] == 'op' and k[1] in ('eq', 'is') and {k[2], k[3]} & {('ext', 'builtins.tuple')}:
            o = k[2] if k[3] == ('ext', 'builtins.tuple') else k[3]
            if o == op('attr', v, K('__class__')):
                return True
    ts = ip.types(v, st)
    return ts is not None and ts == frozenset(['tuple'])


def within(v, w):
    return v == w or isinstance(v, (tuple, frozenset)) and any(within(x, w) for x in v if isinstance(x, (tuple, frozenset)))


def show(v):
    if v[0] == 'op' and v[1] in ('item', 'index') and is_k(v[3]):
        return '%s[%r]' % (show(v[2]), v[3][2])
    if v[0] == 'op' and v[1] == 'attr':
        return '%s.%s' % (show(v[2]), v[3][2])
    if v[0] == 'op' and len(v) > 2 and isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], str):
        return '%s of %s' % (v[1], show(v[2]))
    if v == SELF:
        return 'self'
    if v == OTHER:
        return 'the other operand'
    if v[0] == 'sym':
        return v[1].replace('s.', 'self.').replace('x.', 'other.').replace('@0', '')
    return 'a component'


def effects(ctx, p, points):
    """Analyse each read; one whose paths are too many is cut at its calls on the value, which are then analysed by themselves."""
    work = list((c, n, f, k, frozenset()) for c, n, f, k in points)
    done = set()
    while work:
        c, n, f, shared, facts = work.pop(0)
        if (c, f, facts) in done:
            continue
        done.add((c, f, facts))
        encf = encoding_fields(c)
        for split, states, budget in ((None, 64, 120000), ({}, 64, 120000), ({}, 6, 120000)):
            out = []
            h = Effects(c, encf, out, split)
            h.max_states = states
            h.max_rounds = 6 if states > 6 else 2
            ip = Interp(p, h, budget=budget)
            args, st = start(c, n, f)
            st.facts.update(facts)
            try:
                outs = ip.run(f, args, st)
            except TooComplex:
                continue
            break
        else:
            ctx.undec('%s.%s: too many paths' % (c.qual, n))
            outs = []           # what was found on the paths explored still counts
        for g in sorted(split or (), key=lambda x: x.qual):
            work.append((c, g.node.name, g, 1, split[g]))
        yield c, n, f, shared, out, outs


def check(ctx):
    ctx.spread(entry_points(ctx.prog, list(ctx.prog.asn1_classes())), one)
    ctx.need('reads analysed', 120)


def one(ctx, point):
    for c, n, f, shared, out, outs in effects(ctx, ctx.prog, [point]):
        ctx.count('reads analysed')
        ctx.count('types x reads', shared)
        ctx.count('exits', len(outs))
        for kind, what, fn, line in out:
            ctx.report('%s %s %s' % (kind, fn.qual, what), '%s:%s' % (fn.module.relpath, line),
                       '%s.%s %s %s (in %s), which changes what the value encodes to' % (
                           c.qual, n, {'store': 'stores', 'call': 'calls', 'delete': 'deletes'}[kind], what, fn.qual))
        if shared > 1:
            ctx.sample('read', '%s.%s on %d types' % (c.qual, n, shared))
