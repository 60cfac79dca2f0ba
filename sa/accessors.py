"""Every accessor and decoding callback of the library's own types, interpreted with typed components."""
import ast
from .model import ClassInfo, FuncInfo, PropertyInfo
from .flow import TooComplex, State, NONE
from .typed import Typed, TypedHooks, initial
from .reading import reads

FAIL = ('AttributeError', 'TypeError', 'KeyError', 'UnboundLocalError')


def points(p):
    """(class, name, function): one class per distinct set of components among those that share the function."""
    out, seen = [], set()
    for c in p.asn1_classes():
        fs = [(n, f) for n, f in reads(c) if f.module.name != 'core']
        fs += [(n, f) for n, f in builders(c) if f.module.name != 'core']
        cb = c.get('_spec_callbacks')
        if isinstance(cb, dict):
            fs += [('callback for %s' % k, f) for k, f in sorted(cb.items()) if isinstance(f, FuncInfo)]
        for n, f in fs:
            sig = (f, id(c.get('_fields')), id(c.get('_alternatives')), id(c.get('_map')), id(c.get('_child_spec')))
            if sig not in seen:
                seen.add(sig)
                out.append((c, n, f))
    return sorted(out, key=lambda x: (x[2].qual, x[0].qual, x[1]))


def builders(c):
    """Constructors and assignments of the library's own types."""
    out = []
    for n, v in c.attrs.items():
        f = v.fset if isinstance(v, PropertyInfo) else v
        if isinstance(f, FuncInfo) and (f.kind in ('classmethod', 'staticmethod') or n in ('set', '__init__') or v is not f):
            out.append((n, f))
    return sorted(out, key=lambda x: x[0])


def interpret(p, c, f, budget=150000, hooks=None, facts=()):
    h = hooks or TypedHooks(p)
    st = initial(c)
    st.facts.update(facts)
    ps = f.params()
    args = []
    if f.kind != 'staticmethod' and ps:
        args.append(('cls', c) if f.kind == 'classmethod' else ('ref', 's'))
    for i, a in enumerate(ps[len(args):]):
        if i == 0 and f.node.name in ('__eq__', '__ne__', '__lt__'):
            st.heap['x'] = {'__cls__': c, '__state__': 'fresh'}
            args.append(('ref', 'x'))
        else:
            args.append(('sym', 'arg%d' % i, None))
    for budget, states in ((budget, 400), (budget, 32), (2 * budget, 6)):
        h.max_states = states
        ip = Typed(p, h, budget=budget)
        try:
            return h, ip, ip.run(f, args, st.fork())
        except TooComplex:
            continue
    return h, None, None


def failures(h, outs):
    """(rule, node, exception, message) of every failure an accessor passes on to its caller."""
    for o in outs or ():
        if o.kind == 'raise' and o.val in FAIL and o.node is not None and not isinstance(o.node, ast.Raise):
            rule, msg = o.st.facts.get(('why', id(o.node), o.val)) or h.why.get((id(o.node), o.val), ('A01' if o.val in ('AttributeError', 'TypeError') else 'S06', o.val))
            yield rule, o, msg


def owner(p, node):
    """The function a syntax node belongs to."""
    c = p.__dict__.setdefault('_node_owner', {})
    if not c:
        for f in p.funcs_all:
            for n in ast.walk(f.node):
                c.setdefault(id(n), f)
    return c.get(id(node))


def check(ctx, rule):
    """Report the failures of one kind over every accessor, callback, constructor and assignment."""
    def one(part, point):
        c, n, f = point
        part.count('accessors and callbacks analysed')
        h, ip, outs = interpret(part.prog, c, f)
        if outs is None:
            part.undec('%s.%s: too many paths' % (c.qual, n))
            return
        part.count('paths', len(outs))
        for k, v in h.touched.items():
            part.count('%s followed' % k, len(v))
        part.count('optional components followed', len(h.optional))
        seen = set()
        for r, o, msg in failures(h, outs):
            w = owner(part.prog, o.node)
            if r != rule or w is None or (w, msg) in seen:
                continue
            seen.add((w, msg))
            part.report('%s %s' % (w.qual, msg), '%s:%s' % (w.module.relpath, getattr(o.node, 'lineno', '?')),
                        '%s.%s fails with %s in %s: %s' % (c.qual, n, o.val, w.qual, msg))
        for (r, key), (where, msg) in sorted(h.found.items()):
            if r == rule:
                part.report(key, where, '%s (reached from %s.%s)' % (msg, c.qual, n))
    ctx.spread(points(ctx.prog), one)
