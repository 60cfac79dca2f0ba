"""M02: a rejected assignment leaves the object unchanged (no state written before the last point that can fail)."""
from ..model import FuncInfo, ClassInfo
from ..flow import Interp, TooComplex, State, NONE
from ..objsem import (EditHooks, ObjHooks, SELF, entry_syms, may_raise, lazy_functions, MUTATORS, readers)

RULE = ('For every mutating method (set, __setitem__, __delitem__, append, ...) of every type: on each path that leaves it with an '
        'exception - explicit or implied by an operation whose operands are not known to be safe - no instance field, nor the '
        'container held by one, may differ from its entry state. Stores made by the lazy-decoding helpers are not edits.')
EXPLANATION = ('Typestate dataflow clean -> dirty: a store to the object marks the path dirty, a store that puts the entry value '
               'back cleans it, and an exceptional exit of a dirty path is the violation (the store and the failing operation '
               'are reported).')
ASSUMPTIONS = ['a failing operation is one of: explicit raise, unknown call, attribute or item of an operand of unknown type, '
               'numeric/text conversion, list/dict indexing; pure arithmetic on known types does not fail']
# dropping a decoded view changes nothing that can be observed
VIEWS = frozenset(['_native', '_unicode', '_bytes', '_dotted', '_unused_bits'])


class H(EditHooks):
    def cache(self, frame):
        return any(f.fi in self.lazy for f in frame.stack())

    def mark(self, st, what, node, frame):
        st.mon = (st.mon or frozenset()) | frozenset([(what, frame.fi.qual, getattr(node, 'lineno', 0))])

    def on_store(self, ip, st, obj, attr, val, node, frame):
        if obj != SELF or self.cache(frame):
            return
        rest = frozenset(m for m in (st.mon or ()) if m[0] != attr)
        if val[0] == 'sym' and val[1] == 's.%s@0' % attr:
            st.mon = rest           # entry value restored
            return
        if val == NONE and attr in VIEWS:
            return
        st.mon = rest | frozenset([(attr, frame.fi.qual, getattr(node, 'lineno', 0))])

    def held(self, ip, st, cont):
        if cont[0] == 'ref':
            for f, v in st.heap.get('s', {}).items():
                if v == cont:
                    return f
            return None
        for f in sorted(entry_syms(cont)):
            return f
        return None

    def on_substore(self, ip, st, cont, key, val, node, frame):
        if self.cache(frame):
            return
        f = self.held(ip, st, cont)
        if f is not None:
            self.mark(st, f + '[]', node, frame)

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        self.on_substore(ip, st, cont, None, None, node, frame)

    def on_delete(self, ip, st, cont, key, node, frame):
        self.on_substore(ip, st, cont, key, None, node, frame)

    def implicit(self, ip, st, what, info, node, frame):
        if not st.mon:
            return ()
        if what in ('setitem', 'mutator', 'delitem'):
            return ()
        return may_raise(ip, st, what, info)


def check(ctx):
    p = ctx.prog
    seen = {}
    classes = list(p.asn1_classes()) + [c for c in p.classes() if c.name == 'Concat']
    for c in classes:
        if c.get('tag') is None and not c.issub(p.cls('core.Any')) and not c.issub(p.cls('core.Choice')) and c.name != 'Concat':
            continue
        for name in MUTATORS:
            f = c.method(name)
            if f is None:
                continue
            s = c.method('set')
            sig = (f.qual, s.qual if s else None, tuple(x.qual if x else None for x in (c.method('_parse_children'), c.method('_set_contents'), c.method('_make_value'))),
                   bool(c.get('_map')))
            seen.setdefault(sig, []).append((c, f, name))
    for sig, lst in sorted(seen.items(), key=lambda x: repr(x[0])):
        c, f, name = lst[0]
        nargs = len(f.params()) - 1
        args = [SELF] + [('sym', 'arg%d' % i, None) for i in range(nargs)]
        st = State()
        st.heap['s'] = {'__cls__': c, '__state__': 'entry'}
        ip = Interp(p, H(c, lazy_functions(c)), budget=600000)
        try:
            outs = ip.run(f, args, st)
        except TooComplex:
            ctx.undec('%s.%s: too many paths' % (c.qual, name))
            continue
        ctx.count('mutators_analysed')
        ctx.count('exceptional_exits', sum(1 for o in outs if o.kind == 'raise'))
        for o in outs:
            if o.kind != 'raise' or not o.st.mon:
                continue
            for what, fn, line in sorted(o.st.mon):
                ctx.report('dirty %s %s' % (f.qual, what.rstrip('[]')), '%s:%s' % (f.module.path if hasattr(f.module, 'path') else f.module.name, getattr(o.node, 'lineno', '?')),
                           '%s.%s stores `%s` (%s line %s) before an operation that can still raise %s (line %s); %d types share it'
                           % (c.qual, name, what, fn, line, o.val, getattr(o.node, 'lineno', '?'), len(lst)))
        ctx.sample('mutator', '%s.%s via %s: %d exceptional exits' % (c.qual, name, f.qual, sum(1 for o in outs if o.kind == 'raise')))
    ctx.need('mutators_analysed', 25)
