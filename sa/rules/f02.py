"""F02: load order, layering and name completeness."""
import ast
import builtins
import importlib.util
import sys

from ..model import Program, ModuleInfo, ExtRef, Unk, ClassInfo, PKG, FuncInfo, PropertyInfo, Scope, walk_scope

RULE = ('load_order(), evaluated by constant propagation, lists every module of the package exactly once, and each module after all '
        'modules it imports while being loaded; that import graph has no cycle; every name imported from or looked up on a sibling '
        'module is bound there once it is loaded; every global name used in any function, class or module body is bound in its module '
        'or built in, on Python 2 and on Python 3; every local name has an assignment that can reach its use.')
EXPLANATION = ('Import graph from the syntax tree; module environments by constant propagation of module bodies under both language '
               'versions; symbol tables of every scope compared with those environments; reaching assignments per function.')
ASSUMPTIONS = ['uses guarded by a version test or a try that handles NameError/ImportError are only required on the matching version']

PY2_BUILTINS = set(dir(builtins)) | set(['unicode', 'long', 'unichr', 'xrange', 'basestring', 'raw_input', 'reduce', 'cmp', 'buffer', 'file',
                                        'execfile', 'reload', 'StandardError', 'intern', 'apply', 'coerce'])
PY2_BUILTINS -= set(['FileNotFoundError', 'PermissionError', 'ConnectionError', 'TimeoutError', 'InterruptedError', 'RecursionError',
                     'ModuleNotFoundError', 'StopAsyncIteration', 'breakpoint', 'aiter', 'anext', 'ascii', 'BrokenPipeError',
                     'ChildProcessError', 'ProcessLookupError', 'IsADirectoryError', 'NotADirectoryError', 'FileExistsError',
                     'BlockingIOError', 'ExceptionGroup', 'BaseExceptionGroup', 'ResourceWarning', 'EncodingWarning'])
PY3_BUILTINS = set(dir(builtins))
IMPLICIT = set(['__name__', '__file__', '__doc__', '__package__', '__path__', '__builtins__', '__spec__', '__loader__', '__qualname__', '__module__', '__class__', '__dict__', '__debug__'])


def load_imports(m, modules):
    """[(sibling, names|None, node)] executed while the module is being loaded."""
    out = []

    def walk(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.ImportFrom):
                base = None
                if s.level == 1:
                    base = s.module
                elif s.level == 0 and s.module and (s.module == PKG or s.module.startswith(PKG + '.')):
                    base = s.module[len(PKG) + 1:] or None
                else:
                    continue
                if base is None:
                    for a in s.names:
                        if a.name in modules:
                            out.append((a.name, None, s))
                        else:
                            out.append(('__init__', [a.name], s))
                else:
                    out.append((base, [a.name for a in s.names], s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.startswith(PKG + '.'):
                        out.append((a.name[len(PKG) + 1:], None, s))
            else:
                for nm in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, nm, None)
                    if isinstance(b, list):
                        walk(b)
                for h in getattr(s, 'handlers', []):
                    walk(h.body)
    walk(m.tree.body)
    return out


def orders(ctx, p):
    init = p.modules.get('__init__')
    fi = init.env.get('load_order') if init else None
    graph = {}
    for name, m in p.modules.items():
        graph[name] = load_imports(m, p.modules)
        for dep, names, node in graph[name]:
            ctx.count('sibling imports')
            if dep not in p.modules:
                ctx.report('missing module %s.%s' % (name, dep), '%s:%s' % (m.relpath, node.lineno), '%s imports %s, which does not exist' % (name, dep))
    # cycles
    color = {}

    def visit(n, stack):
        color[n] = 1
        for dep, names, node in graph.get(n, ()):
            if dep not in graph or dep == n:
                continue
            if color.get(dep) == 1:
                cyc = stack[stack.index(dep):] + [dep] if dep in stack else [n, dep]
                ctx.report('cycle %s' % '-'.join(sorted(set(cyc))), '%s:%s' % (p.modules[n].relpath, node.lineno),
                           'import cycle: %s' % ' -> '.join(cyc))
            elif dep not in color:
                visit(dep, stack + [dep])
        color[n] = 2
    for n in sorted(graph):
        if n not in color:
            visit(n, [n])
    if not isinstance(fi, FuncInfo):
        ctx.report('load_order missing', 'asn1crypto/__init__.py:1', 'load_order is not defined')
        return
    from ..model import Evaluator
    try:
        lst = Evaluator(p, init).call(fi, [], {})
    except Exception as e:
        ctx.undec('load_order() is not a constant: %s' % e)
        return
    if not isinstance(lst, (list, tuple)) or any(not isinstance(x, str) for x in lst):
        ctx.undec('load_order() is not a constant list')
        return
    pos = {}
    for i, full in enumerate(lst):
        ctx.count('load_order entries')
        nm = '__init__' if full == PKG else full[len(PKG) + 1:] if full.startswith(PKG + '.') else None
        if nm is None or nm not in p.modules:
            ctx.report('load_order unknown %s' % full, fi.where, 'load_order names %s, which is not a module of the package' % full)
            continue
        if nm in pos:
            ctx.report('load_order twice %s' % full, fi.where, 'load_order names %s twice' % full)
        pos.setdefault(nm, i)
    for nm in sorted(p.modules):
        if nm not in pos:
            ctx.report('load_order omits %s' % nm, fi.where, 'load_order leaves out module %s' % nm)
            continue
        for dep, names, node in graph[nm]:
            ctx.count('order obligations')
            if dep in pos and pos[dep] > pos[nm]:
                ctx.report('load_order %s before %s' % (nm, dep), fi.where, 'load_order puts %s before %s, which it imports (%s:%s)' % (
                    nm, dep, p.modules[nm].relpath, node.lineno))


def version_guard(node):
    """(py2 applies, py3 applies) for the body of an if, (…) for the orelse; None when not a version test."""
    t = node.test
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        neg, t = not neg, t.operand
    r = None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, o, c = t.left, t.ops[0], t.comparators[0]
        if isinstance(l, ast.Attribute) and l.attr == 'version_info' and isinstance(c, ast.Tuple) and c.elts and isinstance(c.elts[0], ast.Constant):
            major = c.elts[0].value
            if isinstance(o, (ast.Lt, ast.LtE)):
                r = ((True, False), (False, True)) if major == 3 else ((True, False), (True, True))
            elif isinstance(o, (ast.GtE, ast.Gt)):
                r = ((False, True), (True, False)) if major == 3 else ((True, True), (True, False))
    elif isinstance(t, ast.Name) and t.id.lower().strip('_') in ('py2', 'is_py2'):
        r = ((True, False), (False, True))
    elif isinstance(t, ast.Name) and t.id.lower().strip('_') in ('py3', 'is_py3'):
        r = ((False, True), (True, False))
    if r and neg:
        r = (r[1], r[0])
    return r


def name_uses(body, ver=(True, True), soft=False):
    """Yield (Name node, (py2, py3), soft) for loads in one scope tree, nested scopes included."""
    for s in body:
        for x in uses(s, ver, soft):
            yield x


def uses(n, ver, soft):
    if isinstance(n, ast.If):
        g = version_guard(n)
        for x in uses(n.test, ver, soft):
            yield x
        a, b = g if g else ((True, True), (True, True))
        for x in name_uses(n.body, (ver[0] and a[0], ver[1] and a[1]), soft):
            yield x
        for x in name_uses(n.orelse, (ver[0] and b[0], ver[1] and b[1]), soft):
            yield x
        return
    if isinstance(n, ast.Try):
        catches = False
        for h in n.handlers:
            names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
            for t in names:
                if t is None or (isinstance(t, ast.Name) and t.id in ('NameError', 'ImportError', 'Exception')):
                    catches = True
        for x in name_uses(n.body, ver, soft or catches):
            yield x
        for h in n.handlers:
            if h.type is not None:
                for x in uses(h.type, ver, soft):
                    yield x
            for x in name_uses(h.body, ver, soft):
                yield x
        for x in name_uses(n.orelse + n.finalbody, ver, soft):
            yield x
        return
    if isinstance(n, ast.Name):
        if isinstance(n.ctx, ast.Load):
            yield n, ver, soft
        return
    for c in ast.iter_child_nodes(n):
        for x in uses(c, ver, soft):
            yield x


class ScopeNames(object):
    """For every Load of a name decide: local/enclosing, or global."""

    def __init__(self, on_global):
        self.on_global = on_global

    def bound(self, node):
        b, glob = set(), set()
        a = getattr(node, 'args', None)
        if a is not None:
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
                b.add(x.arg)
        for n in walk_scope(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                b.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    b.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                b.add(n.name)
            elif isinstance(n, (ast.Global,)):
                glob |= set(n.names)
        return b - glob


def module_names(m, p, ctx, env2):
    path = m.relpath

    def own(node):
        """Expressions and statements evaluated in the node's own scope."""
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            n = todo.pop(0)
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                todo[:0] = list(getattr(n, 'decorator_list', [])) + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
            elif isinstance(n, ast.ClassDef):
                todo[:0] = n.decorator_list + n.bases + [k.value for k in n.keywords]
            else:
                todo[:0] = list(ast.iter_child_nodes(n))

    def collect(node, chain, cls=None):
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                res.append((n, chain + ([cls] if cls is not None else [])))
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                collect(n, chain + [SN.bound(n)])
            elif isinstance(n, ast.ClassDef):
                collect(n, chain, SN.bound(n))
    res = []
    SN = ScopeNames(None)
    collect(m.tree, [])
    guarded = ScopeNames(None).bound(m.tree)
    info = {}
    for n, ver, soft in name_uses(m.tree.body):
        info[id(n)] = (ver, soft)
    for n, chain in res:
        if any(n.id in b for b in chain):
            continue
        ctx.count('global name uses')
        ver, soft = info.get(id(n), ((True, True), False))
        if soft:
            continue
        for which, env, bi, label in ((ver[1], m.env, PY3_BUILTINS, '3'), (ver[0], env2, PY2_BUILTINS, '2')):
            if which and n.id not in env and n.id not in bi and n.id not in IMPLICIT:
                if comprehension_bound(m.tree, n) or (ver != (True, True) and n.id in guarded):
                    continue
                ctx.report('undefined %s.%s' % (m.name, n.id), '%s:%s' % (path, n.lineno),
                           'name %s is used in %s but not defined or imported (Python %s)' % (n.id, m.name, label))


_COMP = {}


def comprehension_bound(tree, node):
    k = id(tree)
    if k not in _COMP:
        d = {}
        for c in ast.walk(tree):
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                names = set(x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
                for x in ast.walk(c):
                    if isinstance(x, ast.Name) and x.id in names:
                        d[id(x)] = True
        _COMP[k] = d
    return id(node) in _COMP[k]


def sibling_attrs(ctx, p, p2):
    """from .m import x, and m.x, must exist in m."""
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and (n.level == 1 or (n.level == 0 and (n.module or '').split('.')[0] == PKG)):
                base = n.module if n.level == 1 else (n.module[len(PKG) + 1:] or None)
                if base is None:
                    base = '__init__'
                if base not in p.modules:
                    continue
                for a in n.names:
                    ctx.count('imported names')
                    if a.name == '*' or (base == '__init__' and a.name in p.modules):
                        continue
                    if a.name not in p.modules[base].env and a.name not in p2.modules[base].env:
                        ctx.report('import %s.%s in %s' % (base, a.name, m.name), '%s:%s' % (m.relpath, n.lineno),
                                   '%s imports %s from %s, which does not define it' % (m.name, a.name, base))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                b = m.env.get(n.value.id)
                if isinstance(b, ModuleInfo) and not shadowed(m, n):
                    ctx.count('module attribute uses')
                    if n.attr not in b.env and n.attr not in IMPLICIT:
                        ctx.report('attribute %s.%s in %s' % (b.name, n.attr, m.name), '%s:%s' % (m.relpath, n.lineno),
                                   '%s uses %s.%s, which is not defined' % (m.name, b.name, n.attr))
                elif isinstance(b, ExtRef):
                    stdlib_attr(ctx, m, b.name + '.' + n.attr, n)
        for nm, v in m.env.items():
            if isinstance(v, ExtRef) and '.' in v.name and not v.name.startswith('builtins.'):
                stdlib_attr(ctx, m, v.name, m.tree.body[0], nm)


SKIP = {}


def stdlib_attr(ctx, m, name, node, alias=None):
    """The standard library module's stub/source defines the name (looked up in its syntax tree; C modules are skipped)."""
    mod, _, attr = name.rpartition('.')
    names = std_names(mod)
    if names is None:
        return
    ctx.count('standard library names')
    if attr not in names and not submodule(name):
        ctx.report('stdlib %s in %s' % (name, m.name), '%s:%s' % (m.relpath, getattr(node, 'lineno', 1)),
                   '%s uses %s, which the standard library does not define' % (m.name, name))


def submodule(name):
    try:
        return importlib.util.find_spec(name) is not None
    except (ImportError, ValueError, AttributeError):
        return False


def std_names(mod):
    if mod in SKIP:
        return SKIP[mod]
    SKIP[mod] = None
    try:
        spec = importlib.util.find_spec(mod) if mod.split('.')[0] in sys.stdlib_module_names else None
    except (ImportError, ValueError, AttributeError):
        spec = None
    if spec is None or not spec.origin or not spec.origin.endswith('.py'):
        return None
    tree = ast.parse(open(spec.origin, encoding='utf-8').read())
    names, star = set(), False
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    star = True
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            names.add(n.value)
    if star or '__getattr__' in names or 'globals' in names or any(isinstance(n, ast.Name) and n.id == 'globals' for n in ast.walk(tree)):
        return None
    SKIP[mod] = names
    return names


def shadowed(m, n):
    name = n.value.id
    return any(isinstance(f, ast.FunctionDef) and f.lineno <= n.lineno <= (f.end_lineno or f.lineno) and name in ScopeNames(None).bound(f)
               for f in ast.walk(m.tree))


# ---------------------------------------------------------------- unbound locals

class Reach(object):
    """May-assigned analysis over one function body: a local load that no assignment can reach is an error."""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.b = ScopeNames(None).bound(f.node)
        a = f.node.args
        self.start = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None])

    def run(self):
        if isinstance(self.f.node, ast.Lambda):
            return
        self.block(self.f.node.body, set(self.start))

    def expr(self, e, have):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                have.add(n.target.id)
        comp = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp |= set(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            elif isinstance(n, ast.Lambda):
                comp |= ScopeNames(None).bound(n)
        lam = [n for n in ast.walk(e) if isinstance(n, ast.Lambda)]
        inl = set(id(x) for l in lam for x in ast.walk(l))
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inl and n.id in self.b and n.id not in comp:
                self.ctx.count('local name uses')
                if n.id not in have:
                    self.ctx.report('unbound %s %s' % (self.f.qual, n.id), '%s:%s' % (self.f.module.relpath, n.lineno),
                                    'local %s of %s is used where no assignment can have happened' % (n.id, self.f.qual))

    def targets(self, t, have):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                have.discard(n.id)

    def block(self, body, have):
        """-> names possibly assigned at the end; None when the end is not reachable."""
        for s in body:
            r = self.stmt(s, have)
            if r is None:
                return None
            have = r
        return have

    def merge(self, xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        out = set()
        for x in xs:
            out |= x
        return out

    def stmt(self, s, have):
        if isinstance(s, ast.Assign):
            self.expr(s.value, have)
            for t in s.targets:
                self.expr(t, have)
                self.targets(t, have)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, have)
            if isinstance(s.target, ast.Name):
                self.ctx.count('local name uses')
                if s.target.id in self.b and s.target.id not in have:
                    self.ctx.report('unbound %s %s' % (self.f.qual, s.target.id), '%s:%s' % (self.f.module.relpath, s.lineno),
                                    'local %s of %s is used where no assignment can have happened' % (s.target.id, self.f.qual))
            else:
                self.expr(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value, have)
            if s.value is not None:
                self.targets(s.target, have)
        elif isinstance(s, (ast.Expr, ast.Return)):
            self.expr(s.value, have)
            if isinstance(s, ast.Return):
                return None
        elif isinstance(s, ast.Raise):
            self.expr(s.exc, have)
            self.expr(s.cause, have)
            return None
        elif isinstance(s, ast.If):
            self.expr(s.test, have)
            return self.merge([self.block(s.body, set(have)), self.block(s.orelse, set(have))])
        elif isinstance(s, (ast.For, ast.While)):
            pre = set(have)
            self.expr(s.iter if isinstance(s, ast.For) else s.test, pre)
            allb = set(x for n in s.body for x in self.stored(n))
            inner = pre | allb
            if isinstance(s, ast.For):
                self.targets(s.target, inner)
                pre2 = set(pre)
                self.targets(s.target, pre2)
            # uses in the body may be reached by assignments of an earlier iteration
            self.block(s.body, set(inner))
            after = inner
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b))
            if forever:
                return None
            r = self.block(s.orelse, set(after))
            return self.merge([r, after if any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)) else None])
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, have)
                if i.optional_vars is not None:
                    self.targets(i.optional_vars, have)
            return self.block(s.body, have)
        elif isinstance(s, ast.Try):
            b = self.block(s.body, set(have))
            mid = set(have) | set(x for n in s.body for x in self.stored(n))
            outs = []
            if b is not None:
                outs.append(self.block(s.orelse, set(b)))
            for h in s.handlers:
                hv = set(mid)
                self.expr(h.type, hv)
                if h.name:
                    hv.add(h.name)
                outs.append(self.block(h.body, hv))
            m = self.merge(outs)
            if s.finalbody:
                fin = self.block(s.finalbody, (m or set()) | mid)
                if fin is None or m is None:
                    return None
                return fin
            return m
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, have)
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                have.add((a.asname or a.name).split('.')[0])
        elif isinstance(s, (ast.Break, ast.Continue)):
            return None
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.expr(t, have)
                self.targets(t, have)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, have)
            self.expr(s.msg, have)
        return have

    def stored(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                yield n.id
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                yield n.name
            elif isinstance(n, ast.ExceptHandler) and n.name:
                yield n.name
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    yield (a.asname or a.name).split('.')[0]


def exported(ctx, p):
    for m in p.modules.values():
        al = m.env.get('__all__')
        if isinstance(al, (list, tuple)):
            for x in al:
                if isinstance(x, str):
                    ctx.count('exported names')
                    if x not in m.env and x not in p.modules:
                        ctx.report('exported %s.%s' % (m.name, x), '%s:1' % m.relpath, '__all__ of %s names %s, which is not defined' % (m.name, x))


def check(ctx):
    p = ctx.prog
    p2 = Program(p.repo, py2=True)
    orders(ctx, p)
    sibling_attrs(ctx, p, p2)
    exported(ctx, p)
    for name, m in sorted(p.modules.items()):
        ctx.count('modules analysed')
        module_names(m, p, ctx, p2.modules[name].env)
    for f in p.functions():
        Reach(ctx, f).run()
    for mod, err in [(e[0], e) for e in p.errors if isinstance(e, tuple)][:20]:
        ctx.undec('module body: %s' % (err,))
    ctx.need('modules analysed', 10)
    ctx.need('global name uses', 1000)
    ctx.need('local name uses', 1000)
