"""What type does the decoder give an open component, for each value of the identifier that selects it?

Constant propagation of the decoder's own selection code (_determine_spec, the spec callbacks and the
selection tables) on a stub structure whose identifier components hold one registry entry at a time."""
from .model import ClassInfo, FuncInfo, PropertyInfo, InstStub, Unk, Evaluator, BoundConst, NativeMethod, _Raise, _Unknown

UNKNOWN_OID = '2.999.77.1'


class Stub(InstStub):
    """A decoded structure; registry-typed leaves read their value from `sel` (path -> key)."""

    def __init__(self, ctxt, cls, path):
        InstStub.__init__(self, cls, [], {})
        self.t, self.path = ctxt, path

    def fields(self):
        fs = self.cls.get('_fields') or []
        return [f for f in fs if isinstance(f, (tuple, list)) and len(f) > 1]

    def child(self, i):
        f = self.fields()[i]
        if not isinstance(f[1], ClassInfo):
            self.t.other.add(self.path + (f[0],))
            return Unk('component %s' % f[0])
        return Stub(self.t, f[1], self.path + (f[0],))

    def sa_getitem(self, k):
        for i, f in enumerate(self.fields()):
            if f[0] == k:
                return self.child(i)
        if isinstance(k, int) and self.fields():
            return Unk('component %d' % k)
        raise _Raise('KeyError')

    def sa_getattr(self, attr):
        m = self.cls.get('_map')
        if isinstance(m, dict) and not m and self.cls.method('_setup') is not None:
            prepare(self.t.p, self.cls)
            m = self.cls.get('_map')
        if isinstance(m, dict) and m and self.path:
            if attr in ('native', 'dotted', 'contents', '_native', '_dotted'):
                self.t.used.add((self.path, self.cls))
                k = self.t.sel.get(self.path)
                if k is None:
                    k = sorted(m, key=str)[0]
                if attr in ('native', '_native'):
                    return m.get(k, k)
                if attr in ('dotted', '_dotted'):
                    return k
                return Unk('contents')
            return NotImplemented
        if attr == 'children' and not self.path:
            return [self.child(i) for i in range(len(self.fields()))]
        if attr in ('native', 'contents', 'dotted', '_native', 'parsed', 'chosen', 'name', '_contents') and (self.path or attr in ('native', 'contents')):
            self.t.other.add(self.path or ('whole structure',))
            return Unk(attr)
        return NotImplemented


class Run(object):
    def __init__(self, prog):
        self.p = prog
        self.sel, self.used, self.other = {}, set(), set()


def norm_spec(r, any_cls):
    """(field spec, value spec, override) as the decoder applies them -> (outer, inner or None)"""
    name, fs, vs, params, ov = r
    if fs is None or (ov is not None and isinstance(fs, ClassInfo) and fs.issub('Any')):
        return (vs, None)
    if ov is not None:
        return (fs, vs)
    return (fs, None)


def select(run, cls, index, self_stub=None):
    """-> (outer, inner) or Unk; may raise _Raise"""
    f = (cls.get('_fields') or [])[index]
    ev = Evaluator(run.p, cls.module)
    stub = self_stub if self_stub is not None else Stub(run, cls, ())
    ds = cls.method('_determine_spec')
    if ds is not None:
        r = ev.call(BoundConst(ds, stub), [index], {})
        if isinstance(r, (tuple, list)) and len(r) == 5 and not any(isinstance(x, Unk) for x in (r[1], r[2], r[4])):
            return norm_spec(r, None)
        return Unk('selection')
    # the selection helper was renamed: apply its contract to the tables and callbacks directly
    cb = cls.get('_spec_callbacks')
    fs = f[1]
    if isinstance(cb, dict) and f[0] in cb:
        ov = ev.call(cb[f[0]], [stub], {})
        if isinstance(ov, Unk):
            return ov
        if isinstance(ov, tuple) and len(ov) == 2:
            return norm_spec((f[0], ov[0], ov[1] or ov[0], None, ov[1]), None)
        if ov is None:
            return (fs, None)
        return norm_spec((f[0], fs, ov, None, ov if fs is not None else None), None)
    pair, specs = cls.get('_oid_pair'), cls.get('_oid_specs')
    if pair and isinstance(specs, dict):
        n = ev.getattr(stub.sa_getitem(pair[0]), 'native')
        ov = specs.get(n)
        return norm_spec((f[0], fs, ov or fs, None, ov), None)
    return Unk('selection')


def open_components(cls):
    out = []
    fs = cls.get('_fields')
    if not isinstance(fs, (list, tuple)):
        return out
    cb, pair = cls.get('_spec_callbacks'), cls.get('_oid_pair')
    for i, f in enumerate(fs):
        if not isinstance(f, (tuple, list)):
            continue
        if (isinstance(cb, dict) and f[0] in cb) or (pair and len(pair) == 2 and pair[1] == f[0]):
            out.append((i, f[0]))
    return out


def prepare(p, c):
    """Run the per-class setup the first instance triggers (concretely)."""
    ev = Evaluator(p, c.module)
    done = p.__dict__.setdefault('_prepared_seq', set())
    if c in done:
        return True
    done.add(c)
    s = c.method('_setup')
    if s is None:
        return True
    ev.call(BoundConst(s, InstStub(c, [], {})), [], {})
    return True


def table(p, cls, index, reverse=False, run=None, stub=None):
    """-> (selector path or None, {key: (outer, inner) | 'raise X' | Unk}, other components consulted)"""
    run = run or Run(p)
    run.sel, run.used, run.other = {}, set(), set()

    def go(sel):
        run.sel = sel
        try:
            r = select(run, cls, index, stub)
            return r
        except _Raise as e:
            return 'raise %s' % e
        except _Unknown as e:
            return Unk(str(e))
    first = go({})
    paths = sorted(run.used, key=str)
    out = {}
    if not paths:
        return None, {None: first}, run.other
    # an early exit may hide further selectors; widen once
    keys = {}
    for path, c in paths:
        keys[path] = list(c.get('_map')) + ([UNKNOWN_OID] if c.issub('ObjectIdentifier') else [987654])
    main = paths[0][0]
    for k in (reversed(keys[main]) if reverse else keys[main]):
        out[k] = go({main: k})
    for path, c in sorted(run.used, key=str):
        if path != main:
            for k in list(c.get('_map')):
                out[(path, k)] = go({path: k})
    return main, out, run.other
