"""Effects of functions on state that outlives a value: process, modules, classes (syntax + name resolution)."""
import ast

from .model import ClassInfo, FuncInfo, PropertyInfo, ModuleInfo, ExtRef, Unk, InstStub, Scope, walk_scope

MUT = frozenset(['append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard',
                 'sort', 'reverse', '__setitem__', '__delitem__', 'difference_update', 'intersection_update'])


class Resolver(object):
    """Names inside one function."""

    def __init__(self, prog, fi):
        self.p, self.fi = prog, fi
        node = fi.node
        self.params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                self.params.append(a.arg)
        self.assigns = {}
        self.globals = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Global):
                    self.globals |= set(n.names)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.target(t, n.value)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    self.target(n.target, None)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.target(n.target, None)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self.target(n.optional_vars, None)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.assigns.setdefault(n.name, []).append(None)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.assigns.setdefault(n.name, []).append(None)
                elif isinstance(n, ast.NamedExpr):
                    self.target(n.target, n.value)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        self.assigns.setdefault((a.asname or a.name).split('.')[0], []).append(('import', n, a))
        for g in self.globals:
            self.assigns.pop(g, None)

    def target(self, t, v):
        if isinstance(t, ast.Name):
            self.assigns.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.target(a, b)
            else:
                for a in t.elts:
                    self.target(a, None)
        elif isinstance(t, ast.Starred):
            self.target(t.value, None)

    def is_local(self, name):
        return name in self.assigns or name in self.params

    def resolve(self, e, depth=0):
        """-> set of things: ExtRef, ClassInfo, ModuleInfo, ('class-of-self',), ('self',), ('const', owner, name, obj), ('name', dotted unknown)"""
        if depth > 6:
            return set()
        if isinstance(e, ast.Name):
            if e.id in self.params and e.id not in self.assigns:
                if self.fi.cls is not None and self.params and e.id == self.params[0]:
                    if self.fi.kind == 'classmethod':
                        return set([('class-of-self',)])
                    if self.fi.kind == 'func':
                        return set([('self',)])
                return set()
            if e.id in self.assigns:
                out = set()
                for v in self.assigns[e.id]:
                    if isinstance(v, ast.AST):
                        out |= self.resolve(v, depth + 1)
                    elif isinstance(v, tuple) and v[0] == 'import':
                        n, a = v[1], v[2]
                        if isinstance(n, ast.Import):
                            out.add(ExtRef(a.name if a.asname else a.name.split('.')[0]))
                        elif n.level == 0:
                            out.add(ExtRef('%s.%s' % (n.module, a.name)))
                return out
            env = self.fi.closure if self.fi.closure is not None else self.fi.module.env
            while isinstance(env, Scope):
                if e.id in env:
                    break
                env = env.outer
            v = env.get(e.id, self.fi.module.env.get(e.id)) if hasattr(env, 'get') else self.fi.module.env.get(e.id)
            if v is None and e.id not in self.fi.module.env:
                return set([ExtRef('builtins.' + e.id)])
            return self.value(v, self.fi.module, e.id)
        if isinstance(e, ast.Attribute):
            out = set()
            for b in self.resolve(e.value, depth + 1):
                if isinstance(b, ExtRef):
                    out.add(ExtRef(b.name + '.' + e.attr))
                elif isinstance(b, ModuleInfo):
                    if e.attr in b.env:
                        out |= self.value(b.env[e.attr], b, e.attr)
                elif isinstance(b, ClassInfo):
                    v, ow = b.lookup(e.attr)
                    if ow is not None:
                        out |= self.value(v, ow, e.attr)
                elif b == ('class-of-self',) or b == ('self',):
                    if e.attr == '__class__' and b == ('self',):
                        out.add(('class-of-self',))
                    elif self.fi.cls is not None:
                        for c in [self.fi.cls] + [x for x in self.p.classes() if x is not self.fi.cls and x.issub(self.fi.cls)]:
                            v, ow = c.lookup(e.attr)
                            if ow is not None and isinstance(v, (dict, list, set)):
                                if b == ('self',) and self.instance_set(e.attr):
                                    continue
                                out.add(('const', ow.qual, e.attr))
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 and not self.is_local('type'):
                r = self.resolve(e.args[0], depth + 1)
                if ('self',) in r:
                    return set([('class-of-self',)])
            return set()
        if isinstance(e, ast.Subscript):
            # element of a container constant
            out = set()
            for b in self.resolve(e.value, depth + 1):
                if isinstance(b, tuple) and b[0] == 'const':
                    out.add(b)
            return out
        if isinstance(e, ast.IfExp):
            return self.resolve(e.body, depth + 1) | self.resolve(e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.resolve(v, depth + 1)
            return out
        return set()

    def instance_set(self, attr):
        """Is the attribute ever bound on instances?"""
        cache = self.p.__dict__.setdefault('_inst_attrs', None)
        if cache is None:
            cache = set()
            for f in self.p.functions():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        b = n.value
                        if isinstance(b, ast.Name) and b.id == 'cls':
                            continue
                        cache.add(n.attr)
            self.p._inst_attrs = cache
        return attr in cache

    def value(self, v, owner, name):
        if isinstance(v, (ExtRef, ClassInfo, ModuleInfo)):
            return set([v])
        if isinstance(v, (dict, list, set)):
            return set([('const', getattr(owner, 'qual', getattr(owner, 'name', str(owner))), name)])
        return set()


def state_writes(prog, fi):
    """[(what, owner, name, node)] writes of a function to module or class state."""
    r = Resolver(prog, fi)
    out = []

    def store(t, node):
        if isinstance(t, ast.Name):
            if t.id in r.globals:
                out.append(('global', fi.module.name, t.id, node))
        elif isinstance(t, ast.Attribute):
            for b in r.resolve(t.value):
                if isinstance(b, ClassInfo):
                    out.append(('class attribute', b.qual, t.attr, node))
                elif b == ('class-of-self',):
                    out.append(('class attribute', fi.cls.qual if fi.cls else '?', t.attr, node))
                elif isinstance(b, ModuleInfo):
                    out.append(('module attribute', b.name, t.attr, node))
                elif isinstance(b, ExtRef):
                    out.append(('external attribute', b.name, t.attr, node))
        elif isinstance(t, ast.Subscript):
            for b in r.resolve(t.value):
                if isinstance(b, tuple) and b[0] == 'const':
                    out.append(('entry', b[1], b[2], node))
                elif isinstance(b, ExtRef):
                    out.append(('external entry', b.name, '[]', node))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                store(x, node)
        elif isinstance(t, ast.Starred):
            store(t.value, node)

    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                store(t, n)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            store(n.target, n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                store(t, n)
        elif isinstance(n, (ast.For, ast.comprehension)):
            store(n.target, n if isinstance(n, ast.For) else fi.node)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            for b in r.resolve(n.func.value):
                if isinstance(b, tuple) and b[0] == 'const':
                    out.append(('entry', b[1], b[2], n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
            for b in r.resolve(n.args[0]):
                if isinstance(b, ClassInfo) or b == ('class-of-self',):
                    nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                    out.append(('class attribute', b.qual if isinstance(b, ClassInfo) else fi.cls.qual, nm, n))
                elif isinstance(b, (ModuleInfo, ExtRef)):
                    out.append(('module attribute', b.name, '?', n))
    return out


def references(prog, fi):
    """Names a function mentions (for a name-based call graph)."""
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
    return out


def only_reached_from(prog, seeds):
    """Functions all of whose mentions in the tree are in `seeds` or in functions already in the closure."""
    funcs = prog.functions()
    refs = {f: references(prog, f) for f in funcs}
    modrefs = {}
    closed = set(seeds)
    changed = True
    while changed:
        changed = False
        for f in funcs:
            if f in closed or f.node is None or not getattr(f.node, 'name', '').startswith('_') or getattr(f.node, 'name', '').startswith('__'):
                continue
            name = f.node.name
            users = [g for g in funcs if name in refs[g] and g is not f]
            if users and all(u in closed for u in users):
                closed.add(f)
                changed = True
    return closed
