"""E02: wrongly typed arguments are refused with TypeError, and errors are handed on to the caller."""
import ast

from ..flow import Interp, State, TooComplex, K, op
from ..model import ClassInfo, FuncInfo
from ..objsem import ObjHooks, SELF

RULE = ('(1) For every type with its own assignment or constructor behaviour, and for the loaders, parser, PEM, URI, address and key-wrapping '
        'functions, each argument documented as bytes, text or an integer is given a value of each other built-in type in turn: every path of '
        'the interpreted function must end in a raised TypeError, none in a normal return. (2) Every handler in the package that catches '
        'ValueError, TypeError or a wider class ends, on every path through it, by raising the caught exception or one of the same class, '
        'except where the guarded block only asks a choice whether an element fits it.')
EXPLANATION = 'Type-directed path enumeration with an argument of a known wrong type, and a control-flow check of exception handlers.'
ASSUMPTIONS = ['bool is an integer', 'None as a constructor value means no value']

WRONG = ('bytes', 'str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'NoneType', 'opaque')
TYPES = {'bytes': bytes, 'str': str, 'int': int, 'float': float, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'NoneType': type(None),
         'Unrelated': object}
# what the documentation says is assigned to a value of each universal type; the first class found in the bases counts
ASSIGN = (
    ('x509.IPAddress', ('str',)),
    ('core.IntegerOctetString', ('int',)), ('core.IntegerBitString', ('int',)),
    ('core.ParsableOctetString', ('bytes',)), ('core.OctetBitString', ('bytes',)), ('core.OctetString', ('bytes',)),
    ('core.BitString', ('tuple', 'set')), ('core.Enumerated', ('int', 'str')), ('core.Integer', ('int', 'str')),
    ('core.ObjectIdentifier', ('str',)), ('core.AbstractTime', ('str',)), ('core.AbstractString', ('str',)),
)
# public functions: parameter name -> types it may have
FUNCTIONS = (
    ('parser.parse', {'contents': ('bytes',)}),
    ('parser.peek', {'contents': ('bytes',)}),
    ('parser.emit', {'class_': ('int',), 'method': ('int',), 'tag': ('int',), 'contents': ('bytes',)}),
    ('pem.detect', {'byte_string': ('bytes',)}),
    ('pem.armor', {'type_name': ('str',), 'der_bytes': ('bytes',)}),
    ('pem.unarmor', {'pem_bytes': ('bytes',)}),
    ('_iri.iri_to_uri', {'value': ('str',)}),
    ('_iri.uri_to_iri', {'value': ('bytes',)}),
    ('_inet.inet_ntop', {'packed_ip': ('bytes',)}),
    ('_inet.inet_pton', {'ip_string': ('str',)}),
    ('core.load', {'encoded_data': ('bytes',)}),
    ('core.Asn1Value.load', {'encoded_data': ('bytes',)}),
    ('core.Choice.load', {'encoded_data': ('bytes',)}),
    ('core.Any.__init__', {'value': ('NoneType',)}),
    ('core.Sequence.spec', {'field_name': ('str',)}),
    ('core.Concat.load', {'encoded_data': ('bytes',)}),
    ('core.IntegerOctetString.set_encoded_width', {'width': ('int',)}),
    ('keys.ECPrivateKey.set_key_size', {'key_size': ('int',)}),
    ('keys.PrivateKeyInfo.wrap', {'private_key': ('bytes',)}),
    ('keys.PublicKeyInfo.wrap', {'public_key': ('bytes',)}),
    ('x509.ExtensionId.map', {'value': ('str',)}),
    ('x509.ExtensionId.unmap', {'value': ('str',)}),
    ('x509.Certificate.is_valid_domain_ip', {'domain_ip': ('str',)}),
)
GIVEN = {'keys.PrivateKeyInfo.wrap': {'algorithm': 'rsa'}, 'keys.PublicKeyInfo.wrap': {'algorithm': 'rsa'}}     # other arguments
CAUGHT = frozenset(['ValueError', 'TypeError', 'Exception', 'BaseException', 'StandardError'])


class Typed(ObjHooks):
    max_states = 32

    def __init__(self, fi):
        self.fi = fi

    def inline(self, ip, fi, bound, frame):
        if fi.name == '_setup':
            return False
        if bound == SELF or fi.cls is not None and frame.fi.cls is not None:
            return True
        return ObjHooks.inline(self, ip, fi, bound, frame) or fi.name == 'load'

    def getattr(self, ip, st, o, attr, node, frame):
        if o[0] == 'sym' and o[1] == 'arg0' and len(o) > 2 and o[2] is not None and attr != '__class__':
            ts = [TYPES[t] for t in o[2] if t in TYPES]
            if len(ts) == len(o[2]) and not any(hasattr(t, attr) for t in ts):
                frame.raises.append(('AttributeError', st.fork(), node))
                return []
        return ObjHooks.getattr(self, ip, st, o, attr, node, frame)


def functions(prog):
    for q, params in FUNCTIONS:
        parts = q.split('.')
        m = prog.modules.get(parts[0])
        v = m.env.get(parts[1]) if m is not None else None
        if len(parts) == 3:
            yield q, v, v.method(parts[2]) if isinstance(v, ClassInfo) else None, params
        else:
            yield q, None, v if isinstance(v, FuncInfo) else None, params


def arg(t, i):
    if t == 'opaque':
        return ('sym', 'arg%d' % i, frozenset(['Unrelated']))
    return ('sym', 'arg%d' % i, frozenset([t]))


def items(prog):
    out = []
    for q, c, f, params in functions(prog):
        if f is None:
            out.append(('missing', q, None, None, None, None, 1))
            continue
        for a, ok in sorted(params.items()):
            for w in WRONG:
                if w not in ok:
                    out.append(('call', q, c, f, a, w, 1))
    seen = {}
    for c in prog.asn1_classes():
        ok = next((ts for n, ts in ASSIGN if any(k.qual == n for k in c.mro)), None)
        if ok is None or not isinstance(c.get('tag'), int):
            continue
        for name in ('set', '__init__'):
            f = c.method(name)
            if f is None:
                continue
            seen.setdefault((name, f, c.method('set'), ok, bool(c.get('_map'))), []).append(c)
    for (name, f, _, ok, _), cs in sorted(seen.items(), key=lambda x: (x[0][1].qual, x[1][0].qual)):
        own = [c for c in cs if f.cls is c]
        c = (own or cs)[0]
        ps = f.params()
        if len(ps) < 2:
            continue
        for w in WRONG:
            if w in ok or w == 'NoneType' and name == '__init__':
                continue
            out.append(('assign', '%s.%s' % (c.qual, name), c, f, ps[1], w, len(cs)))
    return out


def one(ctx, item):
    kind, label, c, f, a, w, shared = item
    if kind == 'missing':
        ctx.undec('%s is not defined' % label)
        return
    ctx.count('arguments of a wrong type')
    ctx.count('types x arguments', shared)
    ps = f.params()
    if a not in ps:
        ctx.undec('%s has no parameter %s' % (label, a))
        return
    ip = Interp(ctx.prog, Typed(f), budget=60000)
    st = State()
    args = []
    if c is not None and f.kind == 'classmethod':
        args.append(('cls', c))
    elif c is not None and f.kind != 'staticmethod':
        st.heap['s'] = {'__cls__': c, '__state__': 'fresh' if f.name == '__init__' else 'entry'}
        args.append(SELF)
    kwargs = {a: arg(w, 0)}
    params = dict(next((p for q, p in FUNCTIONS if q == label), {}))
    for n in ps[len(args):]:
        if n != a and n in params:
            kwargs[n] = K({'int': 0, 'str': 'A', 'bytes': b'A'}[params[n][0]])
    for n, v in GIVEN.get(label, {}).items():
        kwargs[n] = K(v)
    try:
        outs = ip.run(f, args, st, kwargs)
    except TooComplex:
        ctx.undec('%s with %s: too many paths' % (label, w))
        return
    ctx.count('exits', len(outs))
    bad = [o for o in outs if not (o.kind == 'raise' and o.val == 'TypeError')]
    if bad:
        o = bad[0]
        ctx.report('accepts %s %s %s' % (label, a, w), f.where,
                   '%s with %s of type %s %s instead of raising TypeError%s' % (
                       label, a, 'object' if w == 'opaque' else w,
                       'returns normally' if o.kind == 'return' else 'raises %s (line %s)' % (o.val, getattr(o.node, 'lineno', '?')),
                       '; %d types share it' % shared if shared > 1 else ''))


# ---------------------------------------------------------------- handlers
def names_of(t):
    if t is None:
        return ['BaseException']
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in names_of(x)]
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Attribute):
        return [t.attr]
    return ['?']


def ends(body, name, caught):
    """None when every path through the statements raises the caught exception (or one of a class that was caught), else the offending
    statement, or True when the end can be reached."""
    for s in body:
        if isinstance(s, ast.Raise):
            e = s.exc
            if e is None or isinstance(e, ast.Name) and e.id == name:
                return None
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name) and len(caught) == 1 and e.id == caught[0]:
                return None
            return s
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return s
        if isinstance(s, ast.Assign) and any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for t in s.targets for n in ast.walk(t)):
            return s
        if isinstance(s, ast.If):
            a, b = ends(s.body, name, caught), ends(s.orelse, name, caught) if s.orelse else True
            if a is None and b is None:
                return None
            for x in (a, b):
                if isinstance(x, ast.AST):
                    return x
        elif isinstance(s, ast.With):
            r = ends(s.body, name, caught)
            if r is not True:
                return r
        elif isinstance(s, ast.Try):
            r = ends(s.finalbody, name, caught) if s.finalbody else True
            if r is not True:
                return r
            r = ends(s.body, name, caught)
            if r is not True and not s.handlers:
                return r
        elif isinstance(s, (ast.For, ast.While)):
            for x in ast.walk(s):
                if isinstance(x, ast.Return):
                    return x
    return True


def decodes(prog, fi, body):
    """The first construct of the guarded statements that decodes or builds a value, or None."""
    meths, props = prog.__dict__.setdefault('_e02_names', (set(), set()))
    if not meths:
        for c in prog.classes():
            for n, v in c.attrs.items():
                if isinstance(v, FuncInfo):
                    meths.add(n)
                elif type(v).__name__ == 'PropertyInfo':
                    props.add(n)
    probes = ('validate', 'get', 'index', 'pop', 'append', 'keys', 'items', 'values', 'update', 'copy', 'decode', 'encode', 'format', 'name')
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                f = n.func
                if not n.args and all(k.arg is None for k in n.keywords) and not isinstance(f, ast.Attribute):
                    continue            # an empty value of a type, made to be asked
                if isinstance(f, ast.Attribute):
                    if f.attr in meths and f.attr not in probes:
                        return n
                elif isinstance(f, ast.Name):
                    v = fi.module.env.get(f.id)
                    if v is not None and not isinstance(v, type) and type(v).__name__ not in ('ExtRef',) or v is None and f.id not in BUILTINS:
                        return n
                else:
                    return n
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in props and n.attr in ('native', 'parsed', 'chosen'):
                return n
    return None


BUILTINS = frozenset(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
UNICODE = frozenset(['UnicodeError', 'UnicodeDecodeError', 'UnicodeEncodeError'])


def handlers(ctx):
    for fi in ctx.prog.functions():
        if fi.node is None or fi.module.name == '_ordereddict':
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Try):
                for x in (y for s in n.finalbody for y in ast.walk(s)):
                    if isinstance(x, ast.Return):
                        ctx.report('finally %s' % fi.qual, '%s:%s' % (fi.module.relpath, x.lineno),
                                   '%s returns from a finally block, which discards any error' % fi.qual)
                for h in n.handlers:
                    caught = names_of(h.type)
                    wide = [c for c in caught if c in CAUGHT]
                    uni = [c for c in caught if c in UNICODE]
                    if not wide and not uni:
                        continue
                    ctx.count('handlers')
                    r = ends(h.body, h.name, caught)
                    if r is None:
                        continue
                    if wide:
                        what = decodes(ctx.prog, fi, n.body)
                    else:
                        what = next((x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                                     x.func.attr in ('decode', 'encode')), None)
                    if what is None:
                        ctx.count('handlers that answer a question')
                        continue
                    line = r.lineno if isinstance(r, ast.AST) else h.lineno
                    ctx.report('swallow %s %s' % (fi.qual, '/'.join(caught)), '%s:%s' % (fi.module.relpath, line),
                               '%s catches %s raised by %s (line %s) and %s' % (
                                   fi.qual, ', '.join(caught), ast.unparse(what)[:50], what.lineno,
                                   'raises another class of exception' if isinstance(r, ast.Raise) else 'goes on without raising it again'))
            elif isinstance(n, ast.With):
                for i in n.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == 'suppress' or
                                                    isinstance(c.func, ast.Attribute) and c.func.attr == 'suppress'):
                        ctx.report('suppress %s' % fi.qual, '%s:%s' % (fi.module.relpath, n.lineno), '%s suppresses exceptions' % fi.qual)


def check(ctx):
    handlers(ctx)
    ctx.spread(items(ctx.prog), one)
    ctx.need('arguments of a wrong type', 150)
