"""Program model: modules, classes (with MRO), functions, and constant
evaluation of the definitional code (module and class bodies, `_setup`
table-building code).  Nothing of /repo is imported or executed: the source is
parsed and its table definitions are folded to constants by the evaluator below.
"""
import ast
import os
import copy as _copy

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'asn1crypto'
PY3 = (3, 12, 3, 'final', 0)


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (vanished anchor, unparseable file)."""


class Unk(object):
    """Unknown constant."""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why

    def __bool__(self):
        raise _Unknown(self.why)


class _Unknown(Exception):
    pass


class _Raise(Exception):
    def __init__(self, name, node=None):
        Exception.__init__(self, name)
        self.exc = name


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class ExtRef(object):
    """Reference to something outside the package (stdlib)."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ext', self.name))


class ExtCall(object):
    """Result of calling an external function with constant arguments."""
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def __repr__(self):
        return 'ExtCall(%s, %r)' % (self.fn, self.args)


class InstStub(object):
    """A package-class instance created by definitional code."""
    def __init__(self, cls, args, kwargs):
        self.cls, self.args, self.kwargs = cls, args, kwargs
        self.attrs = {}

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class FuncInfo(object):
    def __init__(self, node, module, cls=None, kind='func', closure=None):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = getattr(node, 'name', '<lambda>')
        self.closure = closure
        self.setter = None
        self.defaults = []
        self.kw_defaults = {}
        self._is_gen = None

    @property
    def qual(self):
        if self.cls is not None:
            return '%s.%s.%s' % (self.module.name, self.cls.name, self.name)
        return '%s.%s' % (self.module.name, self.name)

    @property
    def is_gen(self):
        if self._is_gen is None:
            self._is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(self.node))
        return self._is_gen

    @property
    def where(self):
        return '%s:%s' % (self.module.relpath, getattr(self.node, 'lineno', '?'))

    def __repr__(self):
        return '<func %s>' % self.qual

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class PropertyInfo(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset

    def __repr__(self):
        return '<property %s>' % (self.fget,)


class ClassInfo(object):
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.attrs = {}
        self._mro = None
        self.subclasses = []

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, self.name)

    @property
    def where(self):
        return '%s:%s' % (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return '<class %s>' % self.qual

    @property
    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken('inconsistent MRO for %s' % self.qual)
                out.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
                seqs = [t for t in seqs if t]
            self._mro = out
        return self._mro

    def ext_bases(self):
        out = []
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, ExtRef):
                    out.append(b.name)
        return out

    def lookup(self, name, after=None):
        """(value, owner) by MRO, or (None, None)."""
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def get(self, name, default=None):
        v, o = self.lookup(name)
        return default if o is None else v

    def has(self, name):
        return self.lookup(name)[1] is not None

    def issub(self, other):
        return other in self.mro

    def method(self, name):
        v, o = self.lookup(name)
        return v if isinstance(v, FuncInfo) else None


class ModuleInfo(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.relpath = os.path.join(PKG, os.path.basename(path))
        self.env = {}
        self.imports = []   # (module name, names, node, lazy?)
        self.classes = []
        self.funcs = []
        self.state = 0

    def __repr__(self):
        return '<module %s>' % self.name


def walk_scope(node):
    """Walk a function body without entering nested functions/classes."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


class Cell(object):
    pass


_BUILTINS = {
    'True': True, 'False': False, 'None': None,
}
_PURE = {
    'dict': dict, 'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset, 'len': len,
    'sorted': sorted, 'zip': zip, 'enumerate': enumerate, 'reversed': reversed, 'max': max, 'min': min,
    'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'range': range, 'sum': sum, 'abs': abs,
    'any': any, 'all': all, 'repr': repr, 'ord': ord, 'chr': chr, 'format': format, 'bytearray': bytearray,
    'map': map, 'filter': filter, 'iter': iter, 'next': next, 'hash': hash, 'round': round, 'float': float,
    'divmod': divmod, 'pow': pow, 'hex': hex, 'object': object,
}
_NATIVE = (str, bytes, int, float, tuple, list, dict, set, frozenset, bytearray, range)


class Program(object):
    def __init__(self, repo=None, pkg=PKG, py2=False, order=None, after_load=None):
        self.after_load = after_load
        self.repo = repo or REPO
        self.pkgdir = os.path.join(self.repo, pkg)
        self.modules = {}
        self.py2 = py2
        self.errors = []
        self.dup_keys = []       # (module, lineno, key)
        self.global_writes = []  # (module, description, node) made by one module on another's objects
        self.fuel = 3000000
        self.funcs_all = []
        self._lambda_cache = {}
        if not os.path.isdir(self.pkgdir):
            raise AnalysisBroken('package directory %s is missing' % self.pkgdir)
        for fn in sorted(os.listdir(self.pkgdir)):
            if fn.endswith('.py'):
                path = os.path.join(self.pkgdir, fn)
                with open(path, 'rb') as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (path, e))
                name = fn[:-3]
                self.modules[name] = ModuleInfo(name, path, tree, src.decode('utf-8'))
        self.load_seq = []
        for name in (order or sorted(self.modules)):
            self.load(name)

    # -- loading -----------------------------------------------------------
    def load(self, name):
        m = self.modules[name]
        if m.state:
            return m
        m.state = 1
        m.env['__name__'] = PKG + '.' + name
        ev = Evaluator(self, m)
        ev.block(m.tree.body, m.env)
        m.state = 2
        self.load_seq.append(name)
        if self.after_load is not None:
            self.after_load(self, m)
        return m

    def cls(self, qual):
        mod, name = qual.split('.')
        v = self.modules[mod].env.get(name) if mod in self.modules else None
        if not isinstance(v, ClassInfo):
            raise AnalysisBroken('class %s not found' % qual)
        return v

    def func(self, qual):
        parts = qual.split('.')
        if parts[0] not in self.modules:
            raise AnalysisBroken('module %s not found' % parts[0])
        v = self.modules[parts[0]].env.get(parts[1])
        if len(parts) == 3:
            if not isinstance(v, ClassInfo):
                raise AnalysisBroken('class %s not found' % qual)
            v = v.get(parts[2])
            if isinstance(v, PropertyInfo):
                v = v.fget
        if not isinstance(v, FuncInfo):
            raise AnalysisBroken('function %s not found' % qual)
        return v

    def classes(self):
        for mn in sorted(self.modules):
            for c in self.modules[mn].classes:
                yield c

    def functions(self):
        return list(self.funcs_all)

    def asn1_classes(self):
        base = self.cls('core.Asn1Value')
        return [c for c in self.classes() if c.issub(base)]


class Evaluator(object):
    """Constant evaluator for definitional code."""
    strict = False

    def __init__(self, prog, module):
        self.p = prog
        self.m = module

    # -- statements ----------------------------------------------------------
    def block(self, stmts, env, clsscope=None):
        for s in stmts:
            self.stmt(s, env, clsscope)

    def stmt(self, s, env, cs):
        self.p.fuel -= 1
        if self.p.fuel < 0:
            raise AnalysisBroken('constant evaluation ran out of fuel in %s' % self.m.name)
        fn = getattr(self, 's_' + type(s).__name__, None)
        if fn is None:
            return
        fn(s, env, cs)

    def s_Expr(self, s, env, cs):
        self.ev(s.value, env)

    def s_Import(self, s, env, cs):
        for a in s.names:
            self.m.imports.append((a.name, None, s))
            top = a.name.split('.')[0]
            env[a.asname or top] = ExtRef(a.name if a.asname else top)

    def s_ImportFrom(self, s, env, cs):
        if s.module == '__future__':
            return
        internal = s.level > 0 or (s.module or '').split('.')[0] == PKG
        if internal:
            modname = s.module or ''
            if s.level == 0:
                modname = modname[len(PKG):].lstrip('.')
            for a in s.names:
                if modname == '':
                    if a.name in self.p.modules:
                        self.m.imports.append((a.name, [], s))
                        mi = self.p.load(a.name)
                        env[a.asname or a.name] = mi
                    else:
                        init = self.p.modules.get('__init__')
                        env[a.asname or a.name] = init.env.get(a.name, Unk('import')) if init else Unk('import')
                else:
                    if modname not in self.p.modules:
                        env[a.asname or a.name] = Unk('missing module ' + modname)
                        self.m.imports.append((modname, [a.name], s))
                        continue
                    self.m.imports.append((modname, [a.name], s))
                    mi = self.p.load(modname)
                    if a.name in mi.env:
                        env[a.asname or a.name] = mi.env[a.name]
                    else:
                        env[a.asname or a.name] = Unk('import %s.%s' % (modname, a.name))
                        if mi.state == 2:
                            self.p.errors.append(('missing-import', self.m, s, '%s.%s' % (modname, a.name)))
                        else:
                            self.p.errors.append(('cyclic-import', self.m, s, '%s.%s' % (modname, a.name)))
        else:
            self.m.imports.append((s.module, [a.name for a in s.names], s))
            for a in s.names:
                env[a.asname or a.name] = ExtRef('%s.%s' % (s.module, a.name))

    def make_func(self, node, env, cs, closure=None):
        owner = cs
        fi = FuncInfo(node, self.m, owner, 'func', closure)
        a = node.args
        for d in a.defaults:
            fi.defaults.append(self.ev(d, env))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                fi.kw_defaults[k.arg] = self.ev(d, env)
        return fi

    def s_FunctionDef(self, s, env, cs):
        fi = self.make_func(s, env, cs, None if env is self.m.env or cs is not None else env)
        self.p.funcs_all.append(fi)
        if cs is None and env is self.m.env:
            self.m.funcs.append(fi)
        val = fi
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                fi.kind = 'property'
                val = PropertyInfo(fi)
            elif isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod'):
                fi.kind = d.id
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
                prev = env.get(d.value.id)
                fi.kind = d.attr
                if isinstance(prev, PropertyInfo):
                    if d.attr == 'setter':
                        val = PropertyInfo(prev.fget, fi)
                    elif d.attr == 'getter':
                        val = PropertyInfo(fi, prev.fset)
                    else:
                        val = prev
            else:
                dv = self.ev(d, env)
                if isinstance(dv, FuncInfo):
                    fi.kind = 'decorated'
        env[s.name] = val

    def s_ClassDef(self, s, env, cs):
        bases = []
        for b in s.bases:
            v = self.ev(b, env)
            if v is object or (isinstance(b, ast.Name) and b.id == 'object'):
                continue
            bases.append(v)
        ci = ClassInfo(s.name, self.m, bases, s)
        for b in bases:
            if isinstance(b, ClassInfo):
                b.subclasses.append(ci)
        ci.outer = cs
        cenv = ClassEnv(ci, env)
        self.block(s.body, cenv, ci)
        self.m.classes.append(ci)
        val = ci
        env[s.name] = val

    def s_Assign(self, s, env, cs):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)

    def s_AnnAssign(self, s, env, cs):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, s)

    def s_AugAssign(self, s, env, cs):
        cur = self.ev(ast.copy_location(_as_load(s.target), s.target), env)
        v = self.ev(s.value, env)
        self.assign(s.target, self.binop(s.op, cur, v, inplace=True), env, s)

    def s_Delete(self, s, env, cs):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(c, (dict, list)) and not isinstance(k, Unk):
                    try:
                        del c[k]
                    except (KeyError, IndexError):
                        raise _Raise('KeyError')

    def assign(self, t, v, env, node=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                if len(v) != len(t.elts):
                    raise _Raise('ValueError')
                for e, x in zip(t.elts, v):
                    self.assign(e, x, env, node)
            else:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unk('unpack'), env, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, ClassInfo):
                o.attrs[t.attr] = v
                self.p.global_writes.append((self.m, o, t.attr, node))
            elif isinstance(o, InstStub):
                o.attrs[t.attr] = v
            elif isinstance(o, ModuleInfo):
                o.env[t.attr] = v
                self.p.global_writes.append((self.m, o, t.attr, node))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            if isinstance(o, (dict, list)) and not isinstance(k, Unk):
                try:
                    o[k] = v
                except (TypeError, IndexError):
                    raise _Raise('TypeError')
                if isinstance(t.value, ast.Attribute):
                    owner = self.ev(t.value.value, env)
                    self.p.global_writes.append((self.m, owner, t.value.attr, node, k, v))

    def s_If(self, s, env, cs):
        t = self.ev(s.test, env)
        if isinstance(t, Unk) and self.strict:
            raise _Unknown('if')
        if isinstance(t, Unk):
            self.block(s.body, env, cs)
            self.block(s.orelse, env, cs)
        elif self.truth(t):
            self.block(s.body, env, cs)
        else:
            self.block(s.orelse, env, cs)

    def truth(self, v):
        if isinstance(v, (ClassInfo, FuncInfo, ModuleInfo, ExtRef, ExtCall, InstStub)):
            return True
        return bool(v)

    def s_For(self, s, env, cs):
        it = self.ev(s.iter, env)
        if isinstance(it, (Unk, ExtRef, ExtCall, InstStub, ClassInfo, FuncInfo)):
            if self.strict:
                raise _Unknown('for')
            return
        try:
            seq = list(it)
        except TypeError:
            raise _Raise('TypeError')
        for x in seq:
            self.assign(s.target, x, env, s)
            try:
                self.block(s.body, env, cs)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.block(s.orelse, env, cs)

    def s_While(self, s, env, cs):
        n = 0
        while True:
            t = self.ev(s.test, env)
            if isinstance(t, Unk) and self.strict:
                raise _Unknown('while')
            if isinstance(t, Unk) or not self.truth(t):
                break
            n += 1
            if n > 200000:
                raise AnalysisBroken('unbounded loop in definitional code %s:%s' % (self.m.name, s.lineno))
            try:
                self.block(s.body, env, cs)
            except _Break:
                break
            except _Continue:
                continue

    def s_Break(self, s, env, cs):
        raise _Break()

    def s_Continue(self, s, env, cs):
        raise _Continue()

    def s_Try(self, s, env, cs):
        try:
            try:
                self.block(s.body, env, cs)
                self.block(s.orelse, env, cs)
            except _Raise as e:
                for h in s.handlers:
                    names = handler_names(h)
                    if names is None or e.exc in names or 'Exception' in names:
                        if h.name:
                            env[h.name] = Unk('exc')
                        self.block(h.body, env, cs)
                        break
                else:
                    raise
        finally:
            self.block(s.finalbody, env, cs)

    def s_With(self, s, env, cs):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, s)
        self.block(s.body, env, cs)

    def s_Return(self, s, env, cs):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Raise(self, s, env, cs):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', 'Exception')
        raise _Raise(name, s)

    def s_Global(self, s, env, cs):
        pass

    # -- expressions -----------------------------------------------------------
    def ev(self, e, env):
        if e is None:
            return None
        self.p.fuel -= 1
        if self.p.fuel < 0:
            raise AnalysisBroken('constant evaluation ran out of fuel in %s' % self.m.name)
        fn = getattr(self, 'e_' + type(e).__name__, None)
        if fn is None:
            return Unk(type(e).__name__)
        try:
            return fn(e, env)
        except _Unknown as u:
            return Unk(str(u))

    def e_Constant(self, e, env):
        return e.value

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, env)
                if isinstance(x, (str, int)) and v.format_spec is None and v.conversion == -1:
                    out += str(x)
                else:
                    return Unk('fstring')
        return out

    def lookup(self, name, env):
        e = env
        while e is not None:
            if isinstance(e, ClassEnv):
                if name in e.ci.attrs:
                    return e.ci.attrs[name]
                e = e.outer
                continue
            if isinstance(e, Scope):
                if name in e:
                    return e[name]
                e = e.outer
                continue
            if name in e:
                return e[name]
            break
        if name in self.m.env:
            return self.m.env[name]
        if name in _BUILTINS:
            return _BUILTINS[name]
        if name in _PURE:
            return _PURE[name]
        return ExtRef('builtins.' + name)

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return list(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if isinstance(v, Unk):
                    raise _Unknown('star')
                out.extend(v)
            else:
                out.append(self.ev(x, env))
        return out

    def e_Set(self, e, env):
        v = self.elts(e.elts, env)
        if any(isinstance(x, Unk) for x in v):
            return Unk('set')
        return set(v)

    def e_Dict(self, e, env):
        d = {}
        seen = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if isinstance(o, dict):
                    d.update(o)
                else:
                    return Unk('dict **')
                continue
            kk = self.ev(k, env)
            vv = self.ev(v, env)
            if isinstance(kk, Unk):
                return Unk('dict key')
            try:
                if kk in seen:
                    self.p.dup_keys.append((self.m, k.lineno, kk, seen[kk], vv))
                seen[kk] = vv
                d[kk] = vv
            except TypeError:
                return Unk('unhashable key')
        return d

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, attr):
        if isinstance(o, ModuleInfo):
            return o.env.get(attr, Unk('attr ' + attr))
        if isinstance(o, ClassInfo):
            if attr == '__name__':
                return o.name
            if attr == '__class__':
                return type
            if attr == '__bases__':
                return tuple(o.bases)
            if attr == '__mro__':
                return tuple(o.mro)
            if attr == '__dict__':
                return o.attrs
            v, ow = o.lookup(attr)
            if ow is None:
                return Unk('attr ' + attr)
            if isinstance(v, FuncInfo) and v.kind == 'classmethod':
                return BoundConst(v, o)
            return v
        if isinstance(o, InstStub):
            if hasattr(o, 'sa_getattr'):
                r = o.sa_getattr(attr)
                if r is not NotImplemented:
                    return r
            if attr == '__class__':
                return o.cls
            if attr in o.attrs:
                return o.attrs[attr]
            v, ow = o.cls.lookup(attr)
            if isinstance(v, FuncInfo) and v.kind == 'func':
                return BoundConst(v, o)
            if isinstance(v, FuncInfo) and v.kind == 'classmethod':
                return BoundConst(v, o.cls)
            if isinstance(v, PropertyInfo):
                return Unk('property')
            return v if ow is not None else Unk('attr ' + attr)
        if isinstance(o, ExtRef):
            if o.name == 'sys' and attr == 'version_info':
                return (2, 7, 18, 'final', 0) if self.p.py2 else PY3
            if o.name == 'sys' and attr == 'platform':
                return 'linux'
            return ExtRef(o.name + '.' + attr)
        if isinstance(o, SuperConst):
            v, ow = o.cls_of.lookup(attr, after=o.after)
            if isinstance(v, FuncInfo):
                return BoundConst(v, o.obj)
            return Unk('super attr')
        if isinstance(o, _NATIVE):
            if attr == '__class__':
                return type(o)
            return NativeMethod(o, attr)
        if o in (str, bytes, dict, int, list, set, tuple):
            return NativeMethod(o, attr)
        return Unk('attr ' + attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = (self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
            if isinstance(o, (str, bytes, list, tuple)) and not any(isinstance(x, Unk) for x in (lo, hi, st)):
                return o[lo:hi:st]
            return Unk('slice')
        k = self.ev(e.slice, env)
        if isinstance(o, InstStub) and hasattr(o, 'sa_getitem') and not isinstance(k, Unk):
            return o.sa_getitem(k)
        if isinstance(k, Unk) or isinstance(o, Unk):
            return Unk('subscript')
        if isinstance(o, (dict, list, tuple, str, bytes)):
            try:
                return o[k]
            except KeyError:
                raise _Raise('KeyError', e)
            except IndexError:
                raise _Raise('IndexError', e)
            except TypeError:
                raise _Raise('TypeError', e)
        return Unk('subscript')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b, inplace=False):
        if isinstance(op, ast.Mod) and isinstance(a, str):
            if isinstance(b, (str, int, float)) or (isinstance(b, tuple) and all(isinstance(x, (str, int, float, type(None))) for x in b)):
                try:
                    return a % b
                except (TypeError, ValueError):
                    raise _Raise('TypeError')
            return Unk('format')
        if not isinstance(a, _NATIVE) or not isinstance(b, _NATIVE):
            if a is None or b is None:
                raise _Raise('TypeError')
            return Unk('binop')
        try:
            import operator as O
            f = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.Div: O.truediv, ast.FloorDiv: O.floordiv,
                 ast.Mod: O.mod, ast.Pow: O.pow, ast.LShift: O.lshift, ast.RShift: O.rshift, ast.BitOr: O.or_,
                 ast.BitAnd: O.and_, ast.BitXor: O.xor}.get(type(op))
            if f is None:
                return Unk('op')
            if isinstance(op, (ast.Pow, ast.LShift)) and isinstance(b, int) and b > 4096:
                return Unk('large')
            if inplace and isinstance(a, list) and isinstance(op, ast.Add):
                a.extend(b)
                return a
            return f(a, b)
        except TypeError:
            raise _Raise('TypeError')
        except ZeroDivisionError:
            raise _Raise('ZeroDivisionError')
        except (ValueError, OverflowError):
            raise _Raise('ValueError')

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(v, Unk):
            return v
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)
        return Unk('unary')

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if isinstance(v, Unk):
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_IfExp(self, e, env):
        t = self.ev(e.test, env)
        if isinstance(t, Unk):
            return Unk('ifexp')
        return self.ev(e.body if self.truth(t) else e.orelse, env)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            if isinstance(left, Unk) or isinstance(right, Unk):
                return Unk('cmp')
            v = self.cmp(op, left, right)
            if isinstance(v, Unk):
                return v
            if not v:
                return False
            left = right
        return True

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b or (isinstance(a, (int, str)) and type(a) == type(b) and a == b)
        if isinstance(op, ast.IsNot):
            return not self.cmp(ast.Is(), a, b)
        if isinstance(a, (ExtCall,)) or isinstance(b, (ExtCall,)):
            return Unk('cmp')
        try:
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
            if isinstance(op, ast.In):
                return a in b
            if isinstance(op, ast.NotIn):
                return a not in b
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            if isinstance(op, ast.GtE):
                return a >= b
        except TypeError:
            raise _Raise('TypeError')
        return Unk('cmp')

    def e_Lambda(self, e, env):
        return self.make_func(e, env, None, env)

    def comp(self, gens, env, emit):
        def rec(i, sc):
            if i == len(gens):
                emit(sc)
                return
            g = gens[i]
            it = self.ev(g.iter, sc)
            if isinstance(it, (Unk, ExtRef, ExtCall)):
                raise _Unknown('comp')
            for x in list(it):
                self.assign(g.target, x, sc)
                ok = True
                for c in g.ifs:
                    t = self.ev(c, sc)
                    if isinstance(t, Unk):
                        raise _Unknown('comp if')
                    if not self.truth(t):
                        ok = False
                        break
                if ok:
                    rec(i + 1, sc)
        rec(0, Scope(env))

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda sc: out.append(self.ev(e.elt, sc)))
        return out

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        out = set()
        self.comp(e.generators, env, lambda sc: out.add(self.ev(e.elt, sc)))
        return out

    def e_DictComp(self, e, env):
        out = {}

        def emit(sc):
            out[self.ev(e.key, sc)] = self.ev(e.value, sc)
        self.comp(e.generators, env, emit)
        return out

    def e_Starred(self, e, env):
        return Unk('starred')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            args = [self.ev(a, env) for a in e.args]
            if len(args) == 2 and isinstance(args[1], InstStub):
                return SuperConst(args[1], args[1].cls, args[0])
            s = env
            while s is not None and not isinstance(s, ClassEnv):
                if isinstance(s, Scope) and '__defcls__' in s:
                    return SuperConst(s.get('__self__'), s.get('__self__').cls, s['__defcls__']) if isinstance(s.get('__self__'), InstStub) else Unk('super')
                s = getattr(s, 'outer', None)
            return Unk('super')
        fn = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, (list, tuple)):
                    args.extend(v)
                else:
                    return Unk('star call')
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
                else:
                    return Unk('** call')
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, e)

    def call(self, fn, args, kwargs, node=None):
        if isinstance(fn, NativeMethod):
            if any(isinstance(a, Unk) for a in args):
                return Unk('native method arg')
            args = [list(a) if isinstance(a, (map, zip)) else a for a in args]
            if isinstance(fn.obj, (ClassInfo,)):
                return Unk('m')
            try:
                f = getattr(fn.obj, fn.name)
            except AttributeError:
                raise _Raise('AttributeError', node)
            try:
                args = [self.native_callable(a) for a in args]
                kwargs = dict((k, self.native_callable(v)) for k, v in kwargs.items())
                r = f(*args, **kwargs)
            except (KeyError, ValueError, IndexError, TypeError, UnicodeError, AttributeError) as ex:
                raise _Raise(type(ex).__name__, node)
            if type(r).__name__ in ('dict_items', 'dict_keys', 'dict_values'):
                r = list(r)
            return r
        if isinstance(fn, type) or fn in _PURE.values() if not isinstance(fn, (Unk, ClassInfo, FuncInfo, ExtRef, ExtCall, BoundConst, InstStub, ModuleInfo, dict, list, set)) else False:
            if any(isinstance(a, (Unk, InstStub)) for a in args):
                return Unk('builtin arg')
            try:
                r = fn(*[self.native_callable(a) for a in args], **dict((k, self.native_callable(v)) for k, v in kwargs.items()))
                if type(r).__name__ in ('map', 'filter', 'zip', 'enumerate', 'reversed', 'list_reverseiterator'):
                    r = list(r)
                return r
            except (KeyError, ValueError, IndexError, TypeError, OverflowError) as ex:
                raise _Raise(type(ex).__name__, node)
            except _Unknown:
                return Unk('builtin')
        if isinstance(fn, ExtRef):
            if fn.name == 'builtins.isinstance' and len(args) == 2:
                return self.isinstance_(args[0], args[1])
            if fn.name == 'builtins.issubclass' and len(args) == 2:
                if isinstance(args[0], ClassInfo) and isinstance(args[1], ClassInfo):
                    return args[0].issub(args[1])
                return Unk('issubclass')
            if fn.name == 'builtins.hasattr' and len(args) == 2:
                v = self.getattr(args[0], args[1])
                return Unk('hasattr') if isinstance(args[0], Unk) else not isinstance(v, Unk)
            if fn.name == 'builtins.getattr' and len(args) >= 2 and isinstance(args[1], str):
                v = self.getattr(args[0], args[1])
                if isinstance(v, Unk) and len(args) == 3:
                    return args[2]
                return v
            if fn.name == 'builtins.setattr' and len(args) == 3 and isinstance(args[1], str):
                if isinstance(args[0], ClassInfo):
                    args[0].attrs[args[1]] = args[2]
                    self.p.global_writes.append((self.m, args[0], args[1], node))
                elif isinstance(args[0], InstStub):
                    args[0].attrs[args[1]] = args[2]
                return None
            if fn.name == 'copy.copy' and isinstance(args[0], (dict, list, set)):
                return _copy.copy(args[0])
            if fn.name in ('copy.deepcopy',) and isinstance(args[0], (dict, list, set)):
                return _copy_tables(args[0])
            if fn.name in ('collections.OrderedDict',):
                return dict(*args, **kwargs)
            return ExtCall(fn.name, args, kwargs)
        if isinstance(fn, ClassInfo):
            st = InstStub(fn, args, kwargs)
            if 'OrderedDict' in fn.name:
                try:
                    return dict(*args, **kwargs)
                except (TypeError, ValueError):
                    return Unk('odict')
            return st
        if isinstance(fn, BoundConst):
            return self.call_func(fn.fi, [fn.obj] + args, kwargs)
        if isinstance(fn, FuncInfo):
            return self.call_func(fn, args, kwargs)
        return Unk('call')

    def native_callable(self, v):
        if isinstance(v, (FuncInfo, BoundConst)):
            return lambda *a, **k: self.call(v, list(a), k)
        if isinstance(v, ExtRef):
            raise _Unknown('ext callable')
        return v

    def isinstance_(self, a, t):
        if isinstance(a, Unk) or isinstance(t, Unk):
            return Unk('isinstance')
        if isinstance(t, tuple):
            rs = [self.isinstance_(a, x) for x in t]
            if any(r is True for r in rs):
                return True
            if any(isinstance(r, Unk) for r in rs):
                return Unk('isinstance')
            return False
        if isinstance(t, type):
            return isinstance(a, t)
        if isinstance(t, ClassInfo):
            if isinstance(a, InstStub):
                return a.cls.issub(t)
            return False
        return Unk('isinstance')

    def call_func(self, fi, args, kwargs, depth=0):
        ev = Evaluator(self.p, fi.module)
        ev.strict = True
        sc = Scope(fi.closure if fi.closure is not None else fi.module.env)
        if fi.cls is not None:
            sc['__defcls__'] = fi.cls
            if args:
                sc['__self__'] = args[0]
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        for i, pn in enumerate(params):
            if i < len(args):
                sc[pn] = args[i]
            elif pn in kwargs:
                sc[pn] = kwargs.pop(pn)
            else:
                j = i - (len(params) - len(fi.defaults))
                if j < 0:
                    raise _Raise('TypeError')
                sc[pn] = fi.defaults[j]
        if a.vararg:
            sc[a.vararg.arg] = tuple(args[len(params):])
        for k in a.kwonlyargs:
            sc[k.arg] = kwargs.pop(k.arg, fi.kw_defaults.get(k.arg))
        if a.kwarg:
            sc[a.kwarg.arg] = kwargs
        if fi.is_gen:
            return Unk('generator')
        if isinstance(fi.node, ast.Lambda):
            return ev.ev(fi.node.body, sc)
        try:
            ev.block(fi.node.body, sc)
        except _Return as r:
            return r.v
        return None


def _copy_tables(o):
    if isinstance(o, dict):
        return type(o)((k, _copy_tables(v)) for k, v in o.items())
    if isinstance(o, list):
        return [_copy_tables(x) for x in o]
    if isinstance(o, set):
        return set(o)
    if isinstance(o, tuple):
        return tuple(_copy_tables(x) for x in o)
    return o


class BoundConst(object):
    def __init__(self, fi, obj):
        self.fi, self.obj = fi, obj


class SuperConst(object):
    def __init__(self, obj, cls_of, after):
        self.obj, self.cls_of, self.after = obj, cls_of, after


class NativeMethod(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Scope(dict):
    def __init__(self, outer):
        dict.__init__(self)
        self.outer = outer


class ClassEnv(object):
    def __init__(self, ci, outer):
        self.ci, self.outer = ci, outer

    def __setitem__(self, k, v):
        self.ci.attrs[k] = v

    def __getitem__(self, k):
        return self.ci.attrs[k]

    def __contains__(self, k):
        return k in self.ci.attrs

    def get(self, k, d=None):
        return self.ci.attrs.get(k, d)

    def pop(self, k, d=None):
        return self.ci.attrs.pop(k, d)


def _as_load(t):
    t = _copy.copy(t)
    t.ctx = ast.Load()
    return t


def handler_names(h):
    """Exception names a handler catches; None means everything."""
    if h.type is None:
        return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = []
    for t in ts:
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, ast.Attribute):
            out.append(t.attr)
    return out


_prog = {}


def program(repo=None, py2=False):
    k = (repo or REPO, py2)
    if k not in _prog:
        _prog[k] = Program(repo, py2=py2)
    return _prog[k]
