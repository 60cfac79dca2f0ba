"""F03: the PEM reader recognises exactly what the PEM writer writes."""
import ast
import itertools
import re

from ..flow import Interp, State, Hooks, K, NONE, op, is_k, tup, TooComplex, Outcome
from ..model import FuncInfo, ExtCall, ClassInfo
from ..arith import Arith, lin, sub

RULE = ('The line loop of the reader is taken as an automaton: its local state is followed from every reachable abstract state under every '
        'class of line (blank, each begin and end marker form, header, data, other text), string operations being constant-folded on the '
        'class representatives. For every sequence of lines: a block is handed on exactly at the end marker, with the label of its begin '
        'marker, exactly the headers (name before the first colon, value stripped) and exactly the data of its own lines, in order; '
        'lines outside blocks and blank lines are ignored; input without a complete block raises ValueError, input with one does not. The '
        'writer emits begin marker, headers, blank line, consecutive chunks of the base64 text and end marker in that form, with one label.')
EXPLANATION = 'Typestate automaton extracted from the reader, explored exhaustively; concatenation structure of the writer on every path.'
ASSUMPTIONS = ['base64 coding and decoding, splitlines() and regular expressions behave as documented']

LABELS = ('CERTIFICATE', 'X509 CRL', 'PKCS7')


def reps(block):
    """(class, bytes, expectation) for lines of block number `block` (labels and payloads differ between the two)."""
    out = [('blank', b'', None)]
    for lab in (LABELS[0:2] if block == 0 else LABELS[2:3]):
        out.append(('begin', b'-----BEGIN ' + lab.encode() + b'-----', lab))
        out.append(('begin', b'---- BEGIN ' + lab.encode() + b' ----', lab))
    out.append(('end', b'-----END CERTIFICATE-----', None))
    out.append(('end', b'---- END CERTIFICATE ----', None))
    t = 'ab'[block]
    out.append(('header', ('Proc-Type: 4,ENC:%s' % t).encode(), ('Proc-Type', '4,ENC:' + t)))
    out.append(('header', ('DEK-Info:  x%s ' % t).encode(), ('DEK-Info', 'x' + t)))
    out.append(('data', b'MIIB' if block == 0 else b'AgEA', None))
    out.append(('data', b'+/12' if block == 0 else b'Zm9v', None))
    out.append(('other', b'Subject CN=' + t.encode(), None))
    out.append(('other', b'Some text -----BEGIN', None))
    return out


def label_reps(block):
    """Every shape of label of up to five characters (capital, digit, space), and a few longer ones."""
    out = []
    if block == 0:
        labs = ['Z', '9', 'Z9', '9Z 0A', 'A B C D E F', 'X 9 Y 8 Z 7', 'A' * 40]
        for n in range(1, 6):
            for t in itertools.product('A0 ', repeat=n):
                t = ''.join(t)
                if t.strip() == t:
                    labs.append(t)
        for lab in labs:
            out.append(('begin', b'-----BEGIN ' + lab.encode() + b'-----', lab))
            out.append(('begin', b'---- BEGIN ' + lab.encode() + b' ----', lab))
    out.append(('data', b'MIIB', None))
    out.append(('end', b'-----END A-----', None))
    return out


class Cx(object):
    """Reference automaton.  state: (phase, block, label, headers, data, emitted)"""
    START = ('out', 0, None, (), (), 0)

    @staticmethod
    def step(s, cls, raw, exp):
        """(next state or None for 'not specified', expected emission or None)"""
        phase, block, label, headers, data, emitted = s
        if cls == 'blank':
            return s, None
        if phase == 'out':
            if cls == 'begin':
                return ('head', block, exp, (), (), emitted), None
            return s, None
        if cls == 'end':
            return ('out', 1 - block, None, (), (), 1), (label, headers, b''.join(data))
        if cls == 'header' and phase == 'head':
            if len(headers) == 2 or any(h[0] == exp[0] for h in headers):
                return None, None
            return (phase, block, label, headers + (exp,), data, emitted), None
        if cls == 'data':
            if len(data) == 2 or raw in data:
                return None, None
            return ('body', block, label, headers, data + (raw,), emitted), None
        return None, None


class PInterp(Interp):
    """Interpreter whose line loop explores the automaton."""

    def __init__(self, prog, hooks, ctx):
        Interp.__init__(self, prog, hooks, budget=4000000)
        self.ctx = ctx
        self.explored = 0
        self.reps = reps
        self.bad = {}
        self.loop_exits = []
        self.unclear = []

    def note(self, key, node, msg):
        self.bad.setdefault(key, (getattr(node, 'lineno', 0), msg))

    # bytes collected in a bytearray
    def mutate(self, o, meth, args, st, node, frame):
        if o[0] == 'ref' and o[1] in st.heap and st.heap[o[1]].get('__cls__') == 'bytearray':
            ob = dict(st.heap[o[1]])
            cur = ob.get('__bytes__', b'' if ob.get('__const__') == () else None)
            if meth in ('extend',) and args and is_k(args[0]) and cur is not None:
                ob['__bytes__'] = cur + args[0][2]
            elif meth == 'clear' and cur is not None:
                ob['__bytes__'] = b''
            else:
                ob['__bytes__'] = None
            ob['__const__'] = None
            st.heap[o[1]] = ob
            return
        if o[0] == 'ref':
            self.yielded_change(o, st, node)
            if meth == 'extend' and o[1] in st.heap and st.heap[o[1]].get('__cls__') == 'list':
                c = self.concrete_iter(args[0], st)
                ob = dict(st.heap[o[1]])
                if c is not None and ob.get('__const__') is not None:
                    ob['__const__'] = ob['__const__'] + tuple(c)
                    st.heap[o[1]] = ob
                    return
            if meth == 'clear' and o[1] in st.heap:
                ob = dict(st.heap[o[1]])
                if ob.get('__cls__') == 'list':
                    ob['__const__'] = ()
                elif ob.get('__cls__') == 'dict':
                    ob = dict((k, v) for k, v in ob.items() if not (isinstance(k, tuple) and k[0] == 'key'))
                    ob['__keys__'] = frozenset()
                st.heap[o[1]] = ob
                return
        Interp.mutate(self, o, meth, args, st, node, frame)

    def yielded_change(self, o, st, node):
        if st.mon and o[1] in st.mon[2]:
            self.note('yielded headers changed', node, 'the headers of a block already handed on are changed afterwards')

    def e_Yield(self, e, st, frame):
        out = []
        for v, s in self.ev(e.value, st, frame) if e.value is not None else [(NONE, st)]:
            spec, ems, held = s.mon
            s.mon = (spec, ems + ((v, e),), held)
            out.append((NONE, s))
        return out

    def _for(self, s, it, st, frame):
        if it != ('sym', 'LINES', None):
            return Interp._for(self, s, it, st, frame)
        return self.automaton(s, st, frame)

    def automaton(self, s, st, frame):
        seen = {}
        work = []
        out = []
        self.loop_node = s
        base_env = frozenset(st.env)

        keep = frozenset(n for n in base_env if n not in self.assigned_names([s.target]))

        def push(x):
            # what is bound for the first time inside the loop is not carried from one line to the next
            x.env = dict((n, v) for n, v in x.env.items() if n in keep or n.startswith('#'))
            k = canon(x, self)
            if k not in seen:
                seen[k] = x
                work.append(x)
        push(st)
        while work:
            if len(seen) > 3000:
                raise TooComplex()
            cur = work.pop()
            self.explored += 1
            fin = cur.fork()
            self.loop_exits.append(fin)
            out += self.block(s.orelse, fin, frame) if s.orelse else [Outcome('fall', None, fin)]
            spec = cur.mon[0]
            for cls, raw, exp in self.reps(spec[1]):
                nspec, want = Cx.step(spec, cls, raw, exp)
                if nspec is None:
                    continue
                n0 = len(frame.raises)
                st2 = cur.fork()
                st2.mon = (spec, (), st2.mon[2])
                for st3 in self.assign(s.target, K(raw), st2, frame, s):
                    for o in self.block(s.body, st3, frame):
                        if o.kind in ('fall', 'continue'):
                            if not self.judge(o.st, cls, raw, spec, want, s):
                                continue
                            ns = o.st
                            held = ns.mon[2]
                            for v, n in ns.mon[1]:
                                for r in refs(v, ns):
                                    held = held | frozenset([r])
                            live = reach(ns)
                            ns.mon = (nspec, (), frozenset(h for h in held if h in live))
                            push(ns)
                        elif o.kind == 'raise':
                            self.note('raise %s' % cls, o.node, 'a %s line %r of a well-formed text raises %s' % (cls, raw, o.val))
                        elif o.kind in ('break', 'return'):
                            self.judge(o.st, cls, raw, spec, want, s)
                            self.note('stop %s' % cls, s, 'reading stops at a %s line, the rest of the text is ignored' % cls)
                for exc, s4, n in frame.raises[n0:]:
                    self.note('raise %s' % cls, n, 'a %s line %r of a well-formed text raises %s' % (cls, raw, exc))
                del frame.raises[n0:]
        return out

    def judge(self, st, cls, raw, spec, want, node):
        ems = st.mon[1]
        if want is None:
            if ems:
                self.note('emit %s %s' % (cls, spec[0]), ems[0][1], 'a block is handed on at a %s line (%r) %s' % (cls, raw, place(spec)))
            return not ems
        if len(ems) != 1:
            self.note('noemit %s' % cls, node, 'the end marker %r of a block hands on %d blocks instead of one' % (raw, len(ems)))
            return False
        v, n = ems[0]
        got = decode_tuple(v, st, self)
        if got is None:
            self.unclear.append('what a block is handed on as could not be determined')
            return True
        label, headers, data = want
        if got[0] != label:
            self.note('label', n, 'a block that begins with label %r is handed on with label %r' % (label, got[0]))
        if got[1] != dict(headers):
            self.note('headers', n, 'a block with headers %r is handed on with %r' % (dict(headers), got[1]))
        if got[2] != data:
            self.note('data', n, 'a block with the data lines %r is handed on with %r' % (data, got[2]))
        return got == (label, dict(headers), data)


def place(spec):
    return {'out': 'outside a block', 'head': 'before any data of the block', 'body': 'within the data of the block'}[spec[0]]


def refs(v, st):
    if v[0] == 'ref':
        return [v[1]]
    if v[0] == 'tup':
        return [r for x in v[1] for r in refs(x, st)]
    return []


def reach(st):
    seen = set()
    work = [v for v in st.env.values() if isinstance(v, tuple)]
    while work:
        v = work.pop()
        if not v:
            continue
        if v[0] == 'ref':
            if v[1] not in seen and v[1] in st.heap:
                seen.add(v[1])
                work += [w for w in st.heap[v[1]].values() if isinstance(w, tuple)]
        else:
            work += [w for w in v if isinstance(w, tuple)]
    return seen


def canon(st, ip):
    names = {}

    def c(v):
        if not isinstance(v, tuple):
            return v
        if len(v) == 2 and v[0] == 'ref':
            if v[1] in names:
                return ('ref', names[v[1]])
            names[v[1]] = len(names)
            ob = st.heap.get(v[1], {})
            return ('obj', names[v[1]], v[1] in st.mon[2], tuple((str(f), c(ob[f])) for f in sorted(ob, key=str) if f not in ('__site__', '__elt__', '__len__', '__src__')))
        return tuple(c(x) for x in v)
    env = tuple((k, c(st.env[k])) for k in sorted(st.env) if k != '#yield')
    return (env, st.mon[0])


def as_bytes(v, st, ip):
    """Constant bytes behind a value, through bytearray, join and conversions."""
    if is_k(v):
        return v[2] if isinstance(v[2], (bytes, str)) else None
    if v[0] == 'ref':
        ob = st.heap.get(v[1], {})
        if ob.get('__cls__') == 'bytearray':
            return ob.get('__bytes__', b'' if ob.get('__const__') == () else None)
        return None
    if v[0] == 'op' and v[1] == 'builtin' and is_k(v[2]) and v[2][2] in ('bytes', 'str', 'bytearray') and len(v) >= 4:
        return as_bytes(v[3], st, ip)
    if v[0] == 'op' and len(v) == 4 and v[1] in ('+', 'add', 'Add'):
        a, b = as_bytes(v[2], st, ip), as_bytes(v[3], st, ip)
        return a + b if a is not None and type(a) is type(b) else None
    if v[0] == 'op' and v[1] == 'meth' and v[3] == K('join') and is_k(v[2]):
        c = ip.concrete_iter(v[4], st)
        if c is not None:
            parts = [as_bytes(x, st, ip) for x in c]
            if all(isinstance(x, type(v[2][2])) for x in parts):
                return v[2][2].join(parts)
    return None


def decode_tuple(v, st, ip):
    if v[0] != 'tup' or len(v[1]) != 3:
        return None
    lab, hdr, der = v[1]
    if not is_k(lab) or hdr[0] != 'ref':
        return None
    ob = st.heap.get(hdr[1], {})
    if ob.get('__cls__') != 'dict' or ob.get('__keys__') is None:
        return None
    h = {}
    for k in ob['__keys__']:
        x = ob.get(('key', k))
        if x is None or not is_k(x) or not is_k(k):
            return None
        h[k[2]] = x[2]
    if der[0] == 'op' and der[1] == 'b64decoded':
        d = der[2][2]
    else:
        return None
    return lab[2], h, d


DECODERS = ('base64.b64decode', 'binascii.a2b_base64', 'base64.decodebytes', 'base64.standard_b64decode')


class Fold(Hooks):
    """Constant folding of regular expressions and base64 decoding."""
    max_states = 200
    unroll = 32

    def __init__(self, prog):
        self.prog = prog

    def regex(self, v):
        if v[0] == 'sym' and v[1].startswith('ext:re.compile:'):
            i = int(v[1].rsplit(':', 1)[1])
            for m in self.prog.modules.values():
                for x in list(m.env.values()) + [y for c in m.classes for y in c.attrs.values()]:
                    if isinstance(x, ExtCall) and id(x) == i:
                        try:
                            return re.compile(*x.args)
                        except Exception:
                            return None
        if v[0] == 'op' and v[1] == 'builtin' and v[2] == K('re.compile') and all(is_k(a) for a in v[3:]):
            try:
                return re.compile(*[a[2] for a in v[3:]])
            except Exception:
                return None
        return None

    def match(self, ip, st, rx, meth, text):
        m = getattr(rx, meth)(text)
        if m is None:
            return [(NONE, st)]
        return [(st.alloc(__cls__='rematch', __len__=K(1), groups=('tup', tuple(K(x) for x in (m.group(),) + m.groups()))), st)]

    def call(self, ip, st, fn, args, kwargs, node, frame):
        if fn[0] == 'ext' and fn[1] in ('re.match', 're.search', 're.fullmatch') and len(args) >= 2:
            a = [ip.resolve(x, st) for x in args]
            if is_k(a[1]):
                rx = self.regex(a[0])
                if rx is None and all(is_k(x) for x in a):
                    rx = re.compile(a[0][2], *[x[2] for x in a[2:]])
                if rx is not None:
                    return self.match(ip, st, rx, fn[1][3:], a[1][2])
        if fn[0] == 'ext' and fn[1] in DECODERS and args:
            d = as_bytes(ip.resolve(args[0], st), st, ip)
            if d is not None:
                return [(op('b64decoded', K(d.encode('ascii') if isinstance(d, str) else d)), st)]
        if fn[0] == 'ext' and fn[1] in ('builtins.bytes', 'builtins.bytearray') and len(args) == 1:
            d = as_bytes(ip.resolve(args[0], st), st, ip)
            if d is not None and fn[1] == 'builtins.bytes':
                return [(K(d), st)]
        return None

    def call_ext(self, ip, st, name, o, args, kwargs, node, frame):
        if o[0] == 'ref' and st.heap.get(o[1], {}).get('__cls__') == 'rematch':
            g = st.heap[o[1]]['groups'][1]
            if name == 'group' and all(is_k(a) for a in args):
                if not args:
                    return [(g[0], st)]
                if len(args) == 1 and isinstance(args[0][2], int) and args[0][2] < len(g):
                    return [(g[args[0][2]], st)]
            if name == 'groups' and not args:
                return [(('tup', g[1:]), st)]
        if name in ('match', 'search', 'fullmatch') and len(args) == 1 and is_k(args[0]):
            rx = self.regex(o)
            if rx is not None:
                return self.match(ip, st, rx, name, args[0][2])
        if name == 'splitlines' and o == ('sym', 'pem', frozenset(['bytes'])):
            return [(('sym', 'LINES', None), st)]
        if name == 'join' and is_k(o) and args:
            d = as_bytes(op('meth', o, K('join'), args[0]), st, ip)
            if d is not None:
                return [(K(d), st)]
        return None

    def on_substore(self, ip, st, cont, key, val, node, frame):
        if cont[0] == 'ref' and isinstance(ip, PInterp):
            ip.yielded_change(cont, st, node)


def reader(ctx, mod):
    """The function with the line loop: found from the public reader through the calls it makes."""
    f = mod.env.get('unarmor')
    if not isinstance(f, FuncInfo):
        return None
    work, seen = [f], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.is_gen:
            return x
        for n in ast.walk(x.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and isinstance(mod.env.get(n.func.id), FuncInfo):
                work.append(mod.env[n.func.id])
    return None


def check_reader(ctx, mod):
    p = ctx.prog
    f = reader(ctx, mod)
    if f is None:
        ctx.undec('no generator reached from pem.unarmor')
        return
    where = f.where
    ip = PInterp(p, Fold(p), ctx)
    st = State(mon=(Cx.START, (), frozenset()))
    try:
        outs = ip.run(f, [('sym', 'pem', frozenset(['bytes']))], st)
    except TooComplex:
        ctx.undec('%s: too many states' % f.qual)
        outs = []
    for u in sorted(set(ip.unclear)):
        ctx.undec('%s: %s' % (f.qual, u))
    if ip.explored < 10:
        ctx.undec('%s: no loop over the lines of the text' % f.qual)
        return
    ctx.count('reader_states', ip.explored)
    wide = PInterp(p, Fold(p), ctx)
    wide.reps = label_reps
    try:
        wide.run(f, [('sym', 'pem', frozenset(['bytes']))], State(mon=(Cx.START, (), frozenset())))
        ctx.count('labels', len(label_reps(0)) - 2)
        for k, v in wide.bad.items():
            ip.bad.setdefault(k, v)
    except TooComplex:
        ctx.undec('%s: too many states for the labels' % f.qual)
    for s in ip.loop_exits[:12]:
        ctx.sample('reader state', '%s' % (s.mon[0],))
    for o in outs:
        ctx.count('reader_ends')
        spec = o.st.mon[0]
        line = getattr(o.node, 'lineno', f.node.lineno)
        w = '%s:%s' % (mod.path, line)
        if o.kind == 'raise' and o.val != 'ValueError':
            ctx.report('end raises %s' % o.val, w, 'at the end of a text %s raises %s' % (f.qual, o.val))
        elif o.kind == 'raise' and spec[5] and spec[0] == 'out':
            ctx.report('complete refused', w, 'a text with complete blocks only is refused')
        elif o.kind == 'return' and not spec[5]:
            ctx.report('incomplete accepted', w, 'a text without any complete block (%s at its end) is not refused' % place(spec))
    for k, (line, msg) in sorted(ip.bad.items()):
        ctx.report(k, '%s:%s' % (mod.path, line), msg)
    # the non-generator form hands on the first block
    pub = mod.env['unarmor']

    class G(Hooks):
        def inline(self, ip, fi, bound, frame):
            return False
    if pub is not f:
        for multiple in (False, True):
            outs = Interp(p, G()).run(pub, [('sym', 'pem', frozenset(['bytes'])), K(multiple)], State())
            for o in outs:
                if o.kind != 'return':
                    continue
                ctx.count('reader_results')
                s = str(o.val)
                if f.qual not in s:
                    ctx.report('unarmor result', pub.where, 'pem.unarmor does not return what %s yields' % f.qual)
                elif multiple and "'next'" in s:
                    ctx.report('unarmor multiple', pub.where, 'pem.unarmor(multiple=True) returns a single block')
                elif not multiple and o.val[0] == 'op' and o.val[1] == 'index' and is_k(o.val[3]) and o.val[3] != K(0):
                    ctx.report('unarmor first', pub.where, 'pem.unarmor without multiple does not return the first block')
                elif not multiple and o.val[0] == 'op' and o.val[1] == 'packcall':
                    ctx.report('unarmor single', pub.where, 'pem.unarmor without multiple returns the generator')


class W(Arith):
    """Records what the writer writes, as one concatenation."""
    max_states = 64

    def __init__(self):
        Arith.__init__(self)
        self.back = []

    def on_mutate(self, ip, st, cont, meth, args, node, frame):
        if meth == 'write' and args:
            st.mon = (st.mon or ()) + (args[0],)

    def on_backedge(self, ip, head, st, names, entry, node, frame):
        Arith.on_backedge(self, ip, head, st, names, entry, node, frame)
        self.back.append((head, st, names, node))


def flatten(v, out):
    if v[0] == 'op' and v[1] in ('+', 'add', 'Add') and len(v) == 4:
        flatten(v[2], out)
        flatten(v[3], out)
    else:
        out.append(v)
    return out


def merged(vals):
    out = []
    for v in vals:
        for x in flatten(v, []):
            if out and is_k(out[-1]) and is_k(x):
                out[-1] = K(out[-1][2] + x[2])
            else:
                out.append(x)
    return out


def check_writer(ctx, mod):
    p = ctx.prog
    f = mod.env.get('armor')
    if not isinstance(f, FuncInfo):
        ctx.undec('pem.armor')
        return
    for label in ('CERTIFICATE', 'x509 crl'):
        for headers in (None, (('Proc-Type', '4,ENC'), ('DEK-Info', 'x'))):
            st = State(mon=())
            if headers is None:
                h = NONE
            else:
                h = st.alloc(__cls__='dict', __keys__=frozenset(K(a) for a, b in headers),
                             __const__=tuple(K(a) for a, b in headers), __len__=K(len(headers)))
                ob = dict(st.heap[h[1]])
                for a, b in headers:
                    ob[('key', K(a))] = K(b)
                st.heap[h[1]] = ob
            hooks = W()
            ip = Interp(p, hooks)
            try:
                outs = ip.run(f, [K(label), ('sym', 'der', frozenset(['bytes'])), h], st)
            except TooComplex:
                ctx.undec('pem.armor')
                return
            lab = label.upper().encode()
            head = b'-----BEGIN ' + lab + b'-----\n'
            if headers:
                head += b''.join((a + ': ' + b + '\n').encode() for a, b in headers) + b'\n'
            tail = b'-----END ' + lab + b'-----\n'
            for o in outs:
                if o.kind != 'return':
                    continue
                ctx.count('writer_paths')
                ps = merged(o.st.mon or ())
                if not ps:
                    ctx.undec('pem.armor: output not built by write()')
                    continue
                first, last = ps[0], ps[-1]
                mid = ps[1:-1]
                if len(ps) == 1 and is_k(first):
                    if first[2] != head + tail:
                        ctx.report('writer markers', f.where, 'an empty value labelled %r is written as %r' % (label, first[2]))
                    continue
                if not is_k(first) or first[2] != head:
                    ctx.report('writer begin', f.where, 'a block labelled %r with headers %r starts with %s instead of %r' % (
                        label, headers, repr(first[2]) if is_k(first) else 'a computed value', head))
                if not is_k(last) or not last[2].endswith(tail) or last[2] != b'\n' + tail:
                    ctx.report('writer end', f.where, 'the data of a block labelled %r is followed by %s instead of a line break and %r' % (
                        label, repr(last[2]) if is_k(last) else 'a computed value', tail))
                chunks = []
                for x in mid:
                    if is_k(x):
                        if x[2] != b'\n':
                            ctx.report('writer line', f.where, 'chunks of data are separated by %r' % (x[2],))
                    else:
                        chunks.append(x)
                for x in chunks:
                    if "b64encode" not in str(x) and "encodebytes" not in str(x):
                        ctx.report('writer data', f.where, 'what is written as data is not base64 of the value')
                sl = [x for x in chunks if x[0] == 'op' and x[1] == 'slice']
                for i, x in enumerate(sl):
                    lo, hi = lin(x[3]) if x[3] != NONE else ({}, 0), lin(x[4])
                    if lo is None or hi is None:
                        ctx.undec('pem.armor chunk')
                        continue
                    w = sub(hi, lo)
                    ctx.count('chunks')
                    if w[0] or w[1] <= 0:
                        ctx.report('writer chunk', f.where, 'a line of data is not a chunk of fixed positive size')
                    if i == 0 and (lo[0] or lo[1]):
                        ctx.report('writer start', f.where, 'the first line of data does not start at the beginning of the base64 text')
                    contiguous(ctx, f, hooks, x, lo, hi)


def contiguous(ctx, f, hooks, x, lo, hi):
    """The loop variable the chunk starts at is advanced to the end of the chunk."""
    for head, st, names, node in hooks.back:
        mon = st.mon or ()
        new = [v for v in mon[len(head.mon or ()):] if v == x]
        if not new:
            continue
        for n in names:
            v, w = head.env.get(n), st.env.get(n)
            if v is None or w is None or v != x[3]:
                continue
            ctx.count('chunk_steps')
            d = sub(lin(w), hi) if lin(w) is not None else None
            if d is None or d[0] or d[1]:
                ctx.report('writer step', f.where, 'the next line of data does not start where the previous one ends')


def check_detect(ctx, mod):
    p = ctx.prog
    f = mod.env.get('detect')
    if not isinstance(f, FuncInfo):
        ctx.undec('pem.detect')
        return
    for block in (0, 1):
        for cls, raw, exp in reps(block):
            if raw.endswith(b'-----BEGIN'):
                continue
            for text in (raw, b'some text\n' + raw + b'\nMIIB'):
                ip = Interp(p, Fold(p))
                for o in ip.run(f, [K(text)], State()):
                    ctx.count('detect_paths')
                    if o.kind == 'raise':
                        ctx.report('detect raises', f.where, 'pem.detect raises %s for %r' % (o.val, text))
                        continue
                    t = ip.truth(o.val, o.st)
                    if t is None:
                        ctx.undec('pem.detect %r' % text)
                    elif t != (cls == 'begin'):
                        ctx.report('detect %s' % cls, f.where, 'pem.detect answers %s for a text with the line %r' % (t, raw))


def check_types(ctx, mod):
    p = ctx.prog
    gen = reader(ctx, mod)
    for name, pos, good in (('detect', 0, 'bytes'), ('armor', 0, 'str'), ('armor', 1, 'bytes'), (None, 0, 'bytes')):
        f = gen if name is None else mod.env.get(name)
        if not isinstance(f, FuncInfo):
            continue
        n = len(f.params())
        for bad in ('int', 'list', 'str' if good == 'bytes' else 'bytes', 'NoneType'):
            args = []
            for i, a in enumerate(f.params()):
                if i == pos:
                    args.append(NONE if bad == 'NoneType' else ('sym', 'bad', frozenset([bad])))
                elif name == 'armor' and i == 2:
                    args.append(NONE)
                else:
                    args.append(('sym', 'pem', frozenset(['bytes' if (name, i) != ('armor', 0) else 'str'])))
            try:
                outs = Interp(p, Fold(p)).run(f, args, State(mon=(Cx.START, (), frozenset())))
            except TooComplex:
                ctx.undec('%s with %s' % (f.qual, bad))
                continue
            for o in outs:
                ctx.count('type_checks')
                if o.kind != 'raise' or o.val != 'TypeError':
                    ctx.report('type %s %d' % (f.qual, pos), f.where, '%s does not raise TypeError when argument %s is a %s' % (f.qual, f.params()[pos], bad))


def check(ctx):
    mod = ctx.prog.modules.get('pem')
    if mod is None:
        ctx.undec('no module pem')
        return
    check_reader(ctx, mod)
    check_writer(ctx, mod)
    check_detect(ctx, mod)
    check_types(ctx, mod)
