"""F01: no side effects beyond the library's own values."""
import ast

from ..model import ClassInfo, ModuleInfo, ExtRef, FuncInfo
from ..effects import Resolver, state_writes, only_reached_from, MUT

RULE = ('Every external name a function or module body refers to is resolved through imports and local bindings and classified: file, '
        'network, process, environment, clock, randomness, logging or dynamic code is refused; printing is only referred to by debug '
        'output (a function that reaches print is named debug or private). Every write to module, class or process state is made by '
        'one-time class set-up, a registration point, a private cache whose stored value depends only on its key and is immutable, or '
        'is undone on every exit including exceptional ones.')
EXPLANATION = ('Effect analysis over the syntax tree of every function and module body with name resolution, closed over the name-based '
               'call graph; path enumeration of functions that change module or class state temporarily.')
ASSUMPTIONS = ['external functions outside the deny list have no effect of their own (each is listed in the evidence)',
               'methods called on values of unknown type are the library\'s own or those of built-in values']

DENY_PREFIX = ('subprocess', 'random', 'secrets', 'threading', 'multiprocessing', 'logging', 'tempfile', 'pathlib', 'shutil', 'glob',
               'urllib.request', 'urllib.error', 'http', 'ftplib', 'smtplib', 'ssl', 'asyncio', 'select', 'signal', 'ctypes', 'pickle',
               'marshal', 'shelve', 'dbm', 'sqlite3', 'importlib', 'imp', 'runpy', 'code', 'atexit', 'gc', 'resource', 'fcntl', 'pty',
               'tty', 'syslog', 'getpass', 'platform', 'locale', 'faulthandler', 'warnings', 'time', 'uuid', 'concurrent', 'os.environ',
               'urllib2', 'urllib.urlopen', 'thread', '_thread', 'mmap', 'telnetlib', 'xmlrpc', 'webbrowser', 'pdb', 'trace',
               'tracemalloc', 'site', 'zipfile', 'tarfile', 'gzip.open', 'bz2.open', 'lzma.open', 'codecs.open', 'io.open', 'io.FileIO',
               'fileinput', 'linecache', 'weakref.finalize')
DENY_EXACT = set('builtins.%s' % x for x in ('open', 'input', 'raw_input', 'exec', 'eval', 'compile', '__import__', 'globals', 'locals',
                                             'breakpoint', 'execfile', 'reload', 'exit', 'quit', 'file'))
DENY_EXACT |= set(['datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today',
                   'sys.stdout', 'sys.stderr', 'sys.stdin', 'sys.exit', 'sys.settrace', 'sys.setprofile', 'sys.setrecursionlimit',
                   'sys.path', 'sys.modules', 'sys.argv', 'sys.meta_path', 'sys.path_hooks', 'sys._getframe', 'sys.addaudithook',
                   'sys.setswitchinterval', 'sys.setcheckinterval', 'sys.setdefaultencoding', 'sys.displayhook', 'sys.excepthook',
                   'codecs.unregister', 'datetime.datetime.fromtimestamp', 'locale.setlocale'])
# os: only pure path handling; socket: only address conversion and constants
OS_OK = ('os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.splitext', 'os.sep', 'os.linesep', 'os.name')
SOCKET_OK = ('socket.AF_', 'socket.inet_', 'socket.error', 'socket.has_ipv6')
CLOCK_ATTR = ('utcnow', 'today')
KNOWN_PURE = ('abc', 'base64', 'binascii', 'codecs', 'collections', 'contextlib', 'copy', 'datetime', 'decimal', 'encodings', 'enum',
              'fractions', 'functools', 'hashlib', 'hmac', 'inspect', 'io.BytesIO', 'io.StringIO', 'itertools', 'math', 'numbers',
              'operator', 're', 'socket', 'string', 'stringprep', 'struct', 'sys', 'textwrap', 'types', 'typing', 'unicodedata',
              'urllib.parse', 'urlparse', 'urllib.quote', 'urllib.unquote', 'zlib', 'builtins', '__future__', 'cgi', 'cStringIO',
              'StringIO', 'os', 'io', 'urllib', 'ipaddress', 'heapq', 'bisect', 'keyword', 'reprlib', 'array', 'weakref', 'copyreg',
              'html', 'json', 'threading', 'traceback', 'dataclasses')
REGISTER = ('register', '_add_to_map', 'unregister')
IMMUTABLE = ('datetime.timezone', 'datetime.timedelta', 're.compile', 'fractions.Fraction', 'builtins.int', 'builtins.str',
             'builtins.bytes', 'builtins.len', 'builtins.bool', 'builtins.tuple', 'builtins.frozenset', 'builtins.max', 'builtins.min')


def denied(name):
    if name in DENY_EXACT:
        return True
    if name == 'os' or name == 'socket':
        return False
    if name.startswith('os.'):
        return not (name in OS_OK or name == 'os.path')
    if name.startswith('socket.'):
        return not name.startswith(SOCKET_OK)
    for d in DENY_PREFIX:
        if name == d or name.startswith(d + '.'):
            return True
    return False


class Pseudo(object):
    """A module body (or class body) seen as a function."""


def module_units(prog):
    for m in prog.modules.values():
        node = ast.parse('def _module(): pass').body[0]
        node.body = [s for s in m.tree.body]
        yield m, node


def loads(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            yield n


def top_imports(m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield a.name, n
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                yield '%s.%s' % (n.module, a.name), n


def external_uses(ctx, prog):
    unknown = set()
    printing = {}
    for f in prog.functions():
        r = Resolver(prog, f)
        ctx.count('functions')
        for n in loads(f.node):
            for x in r.resolve(n):
                if not isinstance(x, ExtRef):
                    continue
                ctx.count('external references')
                if denied(x.name):
                    ctx.report('side-effect %s %s' % (x.name, f.qual), '%s:%s' % (f.module.relpath, n.lineno),
                               '%s uses %s' % (f.qual, x.name))
                elif x.name == 'builtins.print' or x.name.startswith(('pprint.', 'traceback.print')):
                    printing.setdefault(f, n)
                else:
                    if x.name.split('.')[0] not in KNOWN_PURE and x.name not in unknown:
                        unknown.add(x.name)
                        ctx.undec('external name %s used by %s is not classified' % (x.name, f.qual))
                    if not x.name.startswith('builtins.'):
                        ctx.sample('external', x.name, 80)
    return printing


def module_level(ctx, prog):
    """Module and class bodies: calls executed at import."""
    for m in prog.modules.values():
        names = {}
        for full, n in top_imports(m):
            ctx.count('imports')
            if denied(full) or (denied(full.split('.')[0]) and full.split('.')[0] not in ('os', 'socket')):
                ctx.report('import %s %s' % (full, m.name), '%s:%s' % (m.relpath, n.lineno), '%s imports %s' % (m.name, full))
        env = m.env
        for s in own_level(m.tree):
            for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if not (isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load)):
                    continue
                d = dotted(n)
                if d is None:
                    continue
                head = d.split('.')[0]
                v = env.get(head) if head in env else None
                if v is None and head not in env:
                    full = 'builtins.' + d
                elif isinstance(v, ExtRef):
                    full = v.name + d[len(head):]
                else:
                    continue
                ctx.count('module-level references')
                if denied(full) and not full.startswith('sys.'):
                    ctx.report('side-effect %s %s' % (full, m.name), '%s:%s' % (m.relpath, n.lineno),
                               'importing %s uses %s' % (m.name, full))
                elif full == 'builtins.print':
                    ctx.report('print %s' % m.name, '%s:%s' % (m.relpath, n.lineno), 'importing %s prints' % m.name)


def own_level(tree):
    """Statements executed at import, functions left out (class bodies and compound statements opened)."""
    out = []

    def walk(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)):
                for d in getattr(s, 'decorator_list', ()):
                    out.append(d)
                continue
            if isinstance(s, ast.ClassDef):
                for d in s.decorator_list + s.bases:
                    out.append(d)
                walk(s.body)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for nm in ('test', 'iter'):
                    if getattr(s, nm, None) is not None:
                        out.append(getattr(s, nm))
                for it in getattr(s, 'items', ()):
                    out.append(it.context_expr)
                for nm in ('body', 'orelse', 'finalbody'):
                    walk(getattr(s, nm, []))
                for h in getattr(s, 'handlers', []):
                    walk(h.body)
            else:
                out.append(s)
    walk(tree.body)
    return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


def printers(ctx, prog, printing):
    """Functions that print must be debug output or private helpers only debug output mentions."""
    def debugish(name):
        return 'debug' in name
    reach = dict(printing)
    refs = {}
    for f in prog.functions():
        refs[f] = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                refs[f].add(n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                refs[f].add(n.id)
    for f in list(printing):
        ctx.count('printing functions')
        if debugish(f.name):
            continue
        if not f.name.startswith('_') or f.name.startswith('__'):
            ctx.report('print %s' % f.qual, '%s:%s' % (f.module.relpath, printing[f].lineno), '%s prints and is not debug output' % f.qual)
    # private printing helpers: every function mentioning them must print legitimately too
    work = [f for f in printing if f.name.startswith('_') and not f.name.startswith('__')] + [f for f in printing if debugish(f.name)]
    done = set()
    while work:
        f = work.pop()
        if f in done:
            continue
        done.add(f)
        for g in prog.functions():
            if g in done or f.name not in refs[g] or g is f:
                continue
            if debugish(g.name):
                work.append(g)
            elif g.name.startswith('_') and not g.name.startswith('__'):
                work.append(g)
            else:
                ctx.report('print %s' % g.qual, g.where, '%s reaches %s, which prints' % (g.qual, f.qual))


# ---------------------------------------------------------------- temporary changes

class Paths(object):
    """Enumerates the paths of one function, tracking whether one attribute holds its entry value."""

    def __init__(self, prog, fi, r, writes):
        self.p, self.fi, self.r = prog, fi, r
        self.w = {}
        for what, owner, name, node in writes:
            self.w.setdefault(id(node), []).append((owner, name))
        self.locs = sorted(set((o, n) for _, o, n, _ in writes))
        self.bad = []
        self.n = 0

    def attr_of(self, e):
        if not isinstance(e, ast.Attribute):
            if isinstance(e, ast.Name) and e.id in self.r.globals:
                return (self.fi.module.name, e.id)
            return None
        for b in self.r.resolve(e.value):
            if isinstance(b, ClassInfo):
                return (b.qual, e.attr)
            if b == ('class-of-self',) and self.fi.cls:
                return (self.fi.cls.qual, e.attr)
            if isinstance(b, ModuleInfo):
                return (b.name, e.attr)
        return None

    def value(self, e, st):
        loc = self.attr_of(e)
        if loc in self.locs:
            return st[0].get(loc, 'orig:%s.%s' % loc)
        if isinstance(e, ast.Name) and e.id in st[1]:
            return st[1][e.id]
        return 'other'

    def may_raise(self, s):
        for n in ast.walk(s):
            if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Subscript)):
                return True
        return False

    def run(self):
        for kind, st in self.block(self.fi.node.body, ({}, {})):
            for loc, v in st[0].items():
                if v != 'orig:%s.%s' % loc:
                    self.bad.append((loc, kind))
        return self.bad

    def step(self, s, st):
        """Simple statement -> [(kind, state)]"""
        self.n += 1
        if self.n > 20000:
            raise OverflowError
        outs = []
        if self.may_raise(s):
            outs.append(('raise', st))
        a, env = dict(st[0]), dict(st[1])
        if isinstance(s, ast.Assign):
            v = self.value(s.value, st)
            for t in s.targets:
                pairs = [(t, v)]
                if isinstance(t, ast.Tuple):
                    if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(t.elts):
                        pairs = [(x, self.value(y, st)) for x, y in zip(t.elts, s.value.elts)]
                    else:
                        pairs = [(x, 'other') for x in t.elts]
                for x, y in pairs:
                    loc = self.attr_of(x)
                    if loc in self.locs:
                        a[loc] = y
                    elif isinstance(x, ast.Name):
                        env[x.id] = y
        elif isinstance(s, (ast.AugAssign, ast.Delete)):
            for x in ([s.target] if isinstance(s, ast.AugAssign) else s.targets):
                loc = self.attr_of(x)
                if loc in self.locs:
                    a[loc] = 'other'
        elif isinstance(s, ast.Expr) and id(s.value) in self.w:
            for o, n in self.w[id(s.value)]:
                a[(o, n)] = 'other'
        if id(s) in self.w:
            direct = [self.attr_of(t) for t in getattr(s, 'targets', ())] if isinstance(s, ast.Assign) else []
            for t in getattr(s, 'targets', ()):
                if isinstance(t, ast.Tuple):
                    direct += [self.attr_of(x) for x in t.elts]
            for loc in self.w[id(s)]:
                if loc not in direct:
                    a[loc] = 'other'
        if isinstance(s, ast.Return):
            outs.append(('return', (a, env)))
        elif isinstance(s, ast.Raise):
            outs.append(('raise', (a, env)))
        elif isinstance(s, (ast.Break, ast.Continue)):
            outs.append((type(s).__name__.lower(), (a, env)))
        else:
            outs.append(('next', (a, env)))
        return outs

    def block(self, body, st):
        cur = [st]
        done = []
        for s in body:
            nxt = []
            for c in cur:
                for k, x in self.stmt(s, c):
                    (nxt if k == 'next' else done).append(x if k == 'next' else (k, x))
            cur = self.dedup(nxt)
        return done + [('next', c) for c in cur]

    def dedup(self, xs):
        out, seen = [], set()
        for x in xs:
            k = (tuple(sorted(x[0].items())), tuple(sorted(x[1].items())))
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            return self.block(s.body, st) + self.block(s.orelse, st)
        if isinstance(s, (ast.For, ast.While)):
            outs = [('next', st)]
            cur = [st]
            for _ in range(2):
                nx = []
                for c in cur:
                    for k, x in self.block(s.body, c):
                        if k in ('next', 'continue'):
                            nx.append(x)
                            outs.append(('next', x))
                        elif k == 'break':
                            outs.append(('next', x))
                        else:
                            outs.append((k, x))
                cur = self.dedup(nx)
            return outs
        if isinstance(s, ast.With):
            return [('raise', st)] + self.block(s.body, st)
        if isinstance(s, ast.Try):
            outs = []
            for k, x in self.block(s.body, st):
                if k == 'raise' and s.handlers:
                    for h in s.handlers:
                        outs += self.block(h.body, x)
                    broad = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException') for h in s.handlers)
                    if not broad:
                        outs.append((k, x))
                elif k == 'next' and s.orelse:
                    outs += self.block(s.orelse, x)
                else:
                    outs.append((k, x))
            if s.finalbody:
                res = []
                for k, x in outs:
                    for k2, y in self.block(s.finalbody, x):
                        res.append((k if k2 == 'next' else k2, y))
                outs = res
            return outs
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Pass)):
            return [('next', st)]
        return self.step(s, st)


def pure_names(e, r, seen=None):
    """Parameter and local names an expression depends on."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and r.is_local(n.id):
            out.add(n.id)
    return out


def close_deps(names, r):
    """Replace locals by what they are computed from (parameters only)."""
    out, work, seen = set(), list(names), set()
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in r.params:
            out.add(n)
        for v in r.assigns.get(n, ()):
            if isinstance(v, ast.AST):
                work += [x for x in pure_names(v, r)]
            elif v is None:
                out.add(n)
    return out


def keyed_cache(prog, f, r, w):
    """A private module or class container used as a cache: stored value immutable and computed from the key only."""
    what, owner, name, node = w
    if not name.startswith('_') or not isinstance(node, ast.Assign):
        return False
    sub = [t for t in node.targets if isinstance(t, ast.Subscript)]
    if len(sub) != 1:
        return False
    key = close_deps(pure_names(sub[0].slice, r), r)
    keynames = pure_names(sub[0].slice, r)
    if not isinstance(sub[0].slice, (ast.Name, ast.Tuple)):
        return False            # a derived key may merge different inputs
    val = node.value
    for _ in range(3):
        if isinstance(val, ast.Name) and len([v for v in r.assigns.get(val.id, ()) if isinstance(v, ast.AST)]) >= 1:
            cands = [v for v in r.assigns[val.id] if isinstance(v, ast.Call)]
            if len(cands) == 1:
                val = cands[0]
    if isinstance(val, ast.Call):
        fr = r.resolve(val.func)
        if not any(isinstance(x, ExtRef) and x.name in IMMUTABLE for x in fr):
            return False
        deps = set()
        for a in list(val.args) + [k.value for k in val.keywords]:
            deps |= pure_names(a, r)
    elif isinstance(val, ast.Constant):
        deps = set()
    else:
        return False
    return close_deps(deps, r) <= key or deps <= keynames


def writes(ctx, prog):
    setups = [f for f in prog.functions() if f.name == '_setup']
    users = []
    for f in prog.functions():
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '_setup' for n in ast.walk(f.node)):
            users.append(f)
    closure = only_reached_from(prog, [f for f in prog.functions() if f.name in ('_setup',) + REGISTER])
    ctx.count('set-up functions', len(setups))
    for f in prog.functions():
        ws = state_writes(prog, f)
        if not ws:
            continue
        ctx.count('functions writing module or class state')
        if f in closure or f.name in REGISTER:
            ctx.sample('set-up or registration', f.qual)
            continue
        r = Resolver(prog, f)
        rest = []
        for w in ws:
            ctx.count('state writes')
            if f in users and w[2] in ('_SETUP_CLASSES', 'explicit'):
                continue
            if f in users and w[0] == 'entry' and w[2].startswith('_') and setup_flag(prog, f, r, w):
                continue
            if keyed_cache(prog, f, r, w):
                ctx.sample('input-keyed cache', '%s %s' % (f.qual, w[2]))
                continue
            rest.append(w)
        if not rest:
            continue
        try:
            bad = Paths(prog, f, r, rest).run()
        except OverflowError:
            ctx.undec('too many paths in %s' % f.qual)
            continue
        if not bad:
            ctx.sample('restored on every exit', f.qual)
            ctx.count('temporary changes')
        for loc, kind in bad:
            node = [w for w in rest if (w[1], w[2]) == loc]
            ctx.report('state %s %s.%s' % (f.qual, loc[0], loc[1]),
                       '%s:%s' % (f.module.relpath, node[0][3].lineno if node else f.node.lineno),
                       '%s changes %s.%s, which outlives the call (%s exit)' % (f.qual, loc[0], loc[1], kind))
    # import time writes on other modules' tables are the declared extension points; process state is not
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for x in Resolver(prog, f).resolve(n.func) if isinstance(n.func, ast.Attribute) and n.func.attr in ('register', 'register_error') else ():
                    if isinstance(x, ExtRef) and x.name.startswith('codecs.') and not f.name.startswith('register'):
                        ctx.report('process state %s %s' % (x.name, f.qual), '%s:%s' % (f.module.relpath, n.lineno),
                                   '%s registers a codec outside a registration function' % f.qual)


def setup_flag(prog, f, r, w):
    """X[cls] = True beside cls._setup(): the record that a class has been set up."""
    node = w[3]
    return isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and node.value.value is True


def mutable_state(ctx, prog):
    """Containers shared by every instance or call: defaults of parameters and class-level containers mutated through self."""
    for f in prog.functions():
        a = f.node.args
        named = list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        named += [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for arg, d in named:
            if not isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)):
                continue
            ctx.count('mutable defaults')
            for n in ast.walk(f.node):
                hit = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isname(n.func.value, arg.arg):
                    hit = n
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isname(n.value, arg.arg):
                    hit = n
                elif isinstance(n, ast.Assign) and isname(n.value, arg.arg) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                    hit = n
                elif isinstance(n, ast.Return) and n.value is not None and isname(n.value, arg.arg):
                    hit = n
                elif isinstance(n, ast.AugAssign) and isname(n.target, arg.arg):
                    hit = n
                if hit is not None:
                    ctx.report('default %s %s' % (f.qual, arg.arg), '%s:%s' % (f.module.relpath, hit.lineno),
                               'the default of %s is one object shared by every call of %s and is changed or handed out' % (arg.arg, f.qual))
    family = {}
    for c in prog.classes():
        for nm, v in c.attrs.items():
            if isinstance(v, (dict, list, set)):
                family.setdefault(nm, []).append(c)
    for f in prog.functions():
        if f.cls is None or f.kind != 'func' or not f.params():
            continue
        me = f.params()[0]
        stores = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isname(n.value, me):
                stores.add(n.attr)
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                t = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n.value
            elif isinstance(n, ast.AugAssign):
                t = n.target
            if not (isinstance(t, ast.Attribute) and isname(t.value, me)) or t.attr in stores:
                continue
            ctx.count('in-place changes through self')
            for c in family.get(t.attr, ()):
                if not (c.issub(f.cls) or f.cls.issub(c)):
                    continue
                sub = c if c.issub(f.cls) else f.cls
                init = sub.method('__init__')
                if init is not None and sets_attr(prog, sub, t.attr):
                    continue
                ctx.report('shared %s.%s %s' % (c.qual, t.attr, f.qual), '%s:%s' % (f.module.relpath, n.lineno),
                           '%s changes self.%s in place, which is the container defined in class %s and shared by its instances' % (
                               f.qual, t.attr, c.qual))


def sets_attr(prog, cls, attr):
    for k in cls.mro:
        if not isinstance(k, ClassInfo):
            continue
        for m in ('__init__', '_setup'):
            fi = k.attrs.get(m)
            if isinstance(fi, FuncInfo):
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
                        return True
    return False


def isname(e, name):
    return isinstance(e, ast.Name) and e.id == name


def check(ctx):
    p = ctx.prog
    printing = external_uses(ctx, p)
    module_level(ctx, p)
    printers(ctx, p, printing)
    writes(ctx, p)
    mutable_state(ctx, p)
    ctx.need('functions', 300)
    ctx.need('external references', 300)
    ctx.need('functions writing module or class state', 4)
