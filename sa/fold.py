"""Constant folding through containers, buffers and library calls: used where a rule fixes every input of the code it analyses.

Values stay abstract (an unknown operand gives an unknown result); only when every operand is known is the result known."""
import builtins
import datetime
import math

from .flow import Interp, Outcome, K, NONE, TRUE, FALSE, is_k, op, tup, wrap, is_const, plain_const

SEQ = ('list', 'bytearray')


class Fold(Interp):
    """Interp that also folds sorting, buffers, joins, string methods and loops with known tests."""
    rounds = 80
    filters = True

    def e_Name(self, e, st, frame):
        rs = Interp.e_Name(self, e, st, frame)
        if rs and rs[0][0] == ('ext', 'builtins.' + e.id) and not hasattr(builtins, e.id):
            frame.raises.append(('NameError', st.fork(), e))        # all paths are followed one by one: it has no value here
            return []
        return rs

    def wrap(self, r, st, node):
        if isinstance(r, (datetime.datetime, datetime.timedelta, datetime.timezone)):
            return K(r)
        if isinstance(r, (list, set, frozenset)):
            kind = type(r).__name__
            items = sorted(r, key=repr) if kind != 'list' else r
            if not all(isinstance(x, (bool, int, str, bytes, tuple, type(None))) for x in items):
                return None
            return self.new_container(kind, tuple(wrap(x) for x in items), st, node)
        if isinstance(r, (bool, int, float, str, bytes, tuple, type(None))):
            return wrap(r)
        return None

    def const(self, v, st):
        """(known, Python value) of an abstract value made of constants."""
        v = self.resolve(v, st)
        if is_k(v):
            return True, v[2]
        if v[0] == 'tup':
            c = [self.const(x, st) for x in v[1]]
            return all(x[0] for x in c), tuple(x[1] for x in c)
        if v[0] == 'sc':
            return True, v[1].obj
        if v[0] == 'ref' and v[1] in st.heap:
            ob = st.heap[v[1]]
            if ob.get('__cls__') in ('list', 'set', 'tuple', 'frozenset') and ob.get('__const__') is not None:
                c = [self.const(x, st) for x in ob['__const__']]
                if all(x[0] for x in c):
                    try:
                        return True, {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset}[ob['__cls__']](x[1] for x in c)
                    except TypeError:
                        return False, None
            if ob.get('__cls__') == 'BytesIO' and ob.get('__const__') is not None:
                return False, None
        return False, None

    def concrete_iter(self, it, st):
        if is_k(it) and isinstance(it[2], (bytes, tuple)) and len(it[2]) <= self.h.unroll:
            return [wrap(x) for x in it[2]]
        if it[0] == 'op' and it[1] == 'builtin' and it[2][2] in ('map', 'filter') and len(it) == 5:
            pass
        if it[0] == 'ref' and it[1] in st.heap and st.heap[it[1]].get('__cls__') == 'dict':
            return self.dict_keys(st.heap[it[1]])
        return Interp.concrete_iter(self, it, st)

    def slice(self, o, parts, st, node, frame):
        if all(is_k(p) and (p[2] is None or isinstance(p[2], int)) for p in parts):
            heap = o[0] == 'ref' and st.heap.get(o[1], {}).get('__cls__') == 'list'
            if heap or o[0] == 'sc' and isinstance(o[1].obj, list):
                items = self.concrete_iter(o, st)
                if items is not None:
                    return [(self.new_container('list', tuple(items)[slice(*[p[2] for p in parts])], st, node), st)]
        return Interp.slice(self, o, parts, st, node, frame)

    def dict_keys(self, ob):
        """The keys of a dict in the order of insertion, if all of them are known."""
        ks = ob.get('__keys__')
        if ks is None or len(ks) > self.h.unroll or not all(('key', k) in ob for k in ks):
            return None
        return [k[1] for k in ob if isinstance(k, tuple) and k[0] == 'key' and k[1] in ks]

    def pairs(self, v, st):
        """(key, value) pairs that a dict is made of or updated with, or None."""
        v = self.resolve(v, st)
        if v[0] == 'ref' and v[1] in st.heap and st.heap[v[1]].get('__cls__') == 'dict':
            ks = self.dict_keys(st.heap[v[1]])
            return [(k, st.heap[v[1]][('key', k)]) for k in ks] if ks is not None else None
        c = self.concrete_iter(v, st)
        if c is None:
            return None
        c = [self.resolve(x, st) for x in c]
        return [x[1] for x in c] if all(x[0] == 'tup' and len(x[1]) == 2 and is_const(x[1][0]) for x in c) else None

    def new_dict(self, pairs, st, node):
        ref = st.alloc(__cls__='dict', __keys__=frozenset(), __site__=getattr(node, 'lineno', 0))
        self.fill(ref, pairs, st)
        return ref

    def fill(self, ref, pairs, st):
        ob = dict(st.heap[ref[1]])
        for k, v in pairs:
            ob[('key', k)] = v
            ob['__keys__'] = ob['__keys__'] | frozenset([k])
        ob['__len__'] = K(len(ob['__keys__']))
        st.heap[ref[1]] = ob

    def mkcomp(self, e, elts, st, frame, kind):
        if kind != 'dict':
            return Interp.mkcomp(self, e, elts, st, frame, kind)
        rs = self.comp(e, elts, st, frame, kind)
        if not all(conc and all(is_const(self.resolve(x[0], s)) for x in v) for v, s, conc in rs):
            return Interp.mkcomp(self, e, elts, st, frame, kind)
        return self.dedupe([(self.new_dict([(self.resolve(x[0], s), x[1]) for x in v], s, e), s) for v, s, conc in rs])

    def s_While(self, s, st, frame):
        """Loops whose test is known at each turn are unrolled; anything else is left to the fixpoint."""
        out, work = [], [st]
        for i in range(self.rounds):
            nxt = []
            for cur in work:
                for t, s2 in list(self.ev(s.test, cur, frame)):
                    known = self.truth(t, s2)
                    if known is None:
                        return self.limit(out + [o for c in work for o in Interp.s_While(self, s, c, frame)], frame)
                    if not known:
                        out += self.block(s.orelse, s2, frame) if s.orelse else [Outcome('fall', None, s2)]
                        continue
                    for o in self.block(s.body, s2, frame):
                        if o.kind in ('fall', 'continue'):
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            out.append(Outcome('fall', None, o.st))
                        else:
                            out.append(o)
            work = [o.st for o in self.limit(self.fall(nxt), frame)]
            if not work:
                return self.limit(out, frame)
        return self.limit(out + [o for c in work for o in Interp.s_While(self, s, c, frame)], frame)

    def keyed(self, items, kwargs, st, node, frame):
        """Order of `items` under sorted(key=, reverse=): (list of items, state) or None when a key is not known."""
        keys, cur = [], st
        fn = kwargs.get('key', NONE)
        for x in items:
            v = x
            if fn != NONE:
                rs = self.invoke(fn, [x], {}, cur, node, frame)
                if len(rs) != 1:
                    return None
                v, cur = rs[0]
            ok, c = self.const(v, cur)
            if not ok:
                return None
            keys.append(c)
        rev = kwargs.get('reverse', FALSE)
        rev = self.truth(rev, cur)
        if rev is None:
            return None
        try:
            idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)
        except TypeError:
            frame.raises.append(('TypeError', cur.fork(), node))
            return [], None
        return [items[i] for i in idx], cur

    def ext_call(self, name, args, kwargs, st, node, frame):
        n = name[9:] if name.startswith('builtins.') else name
        args = [self.resolve(a, st) for a in args]
        if n == 'sorted' and len(args) == 1:
            c = self.concrete_iter(args[0], st)
            if c is not None:
                r = self.keyed(c, kwargs, st, node, frame)
                if r is not None:
                    return [] if r[1] is None else [(self.new_container('list', tuple(r[0]), r[1], node), r[1])]
        if n == 'map' and len(args) == 2:
            c = self.concrete_iter(args[1], st)
            if c is not None:
                cur, out = st, []
                for x in c:
                    rs = self.invoke(args[0], [x], {}, cur, node, frame)
                    if len(rs) != 1:
                        out = None
                        break
                    out.append(rs[0][0])
                    cur = rs[0][1]
                if out is not None:
                    return [(self.new_container('list', tuple(out), cur, node), cur)]
        if n in ('io.BytesIO', 'cStringIO.StringIO', 'io.StringIO') and not kwargs:
            ref = st.alloc(__cls__='BytesIO', __elt__=None, __const__=tuple(args[:1]), __site__=getattr(node, 'lineno', 0))
            return [(ref, st)]
        if n == 'bytearray' and len(args) <= 1 and not kwargs:
            ok, c = self.const(args[0], st) if args else (True, b'')
            if ok and isinstance(c, (bytes, list, tuple)):
                return [(st.alloc(__cls__='bytearray', __elt__=None, __const__=tuple(K(x) for x in c), __site__=getattr(node, 'lineno', 0)), st)]
        if n in ('dict', 'collections.OrderedDict') and len(args) == 1 and not kwargs:
            ps = self.pairs(args[0], st)
            if ps is not None:
                return [(self.new_dict(ps, st, node), st)]
        if n in FUNCS and args:
            cs = [self.const(a, st) for a in args]
            kw = dict((k, self.const(v, st)) for k, v in kwargs.items())
            if all(c[0] for c in cs) and all(v[0] for v in kw.values()):
                try:
                    r = self.wrap(FUNCS[n](*[c[1] for c in cs], **dict((k, v[1]) for k, v in kw.items())), st, node)
                    if r is not None:
                        return [(r, st)]
                except Exception as ex:
                    frame.raises.append((type(ex).__name__, st.fork(), node))
                    return []
        return Interp.ext_call(self, name, args, kwargs, st, node, frame)

    def mutate(self, o, meth, args, st, node, frame):
        if o[0] == 'ref' and o[1] in st.heap:
            ob = st.heap[o[1]]
            c = ob.get('__const__')
            new = None
            if meth == 'update' and ob.get('__cls__') == 'dict' and ob.get('__keys__') is not None and len(args) == 1:
                ps = self.pairs(args[0], st)
                if ps is not None:
                    self.fill(o, ps, st)
                    self.h.on_mutate(self, st, o, meth, args, node, frame)
                    return
            if c is not None and ob.get('__cls__') in ('list', 'BytesIO', 'bytearray', 'set'):
                if meth in ('append', 'write'):
                    new = c + (args[0],)
                elif meth == 'add' and is_const(args[0]):
                    new = c if args[0] in c else c + (args[0],)
                elif meth == 'discard' and is_const(args[0]) and all(is_const(x) for x in c):
                    new = tuple(x for x in c if x != args[0])
                elif meth == 'remove' and is_const(args[0]) and all(is_const(x) for x in c) and args[0] in c:
                    i = c.index(args[0])
                    new = c[:i] + c[i + 1:]
                elif meth == 'extend':
                    e = self.concrete_iter(args[0], st)
                    new = c + tuple(e) if e is not None else None
                elif meth == 'insert' and is_k(args[0]):
                    x = list(c)
                    x.insert(args[0][2], args[1])
                    new = tuple(x)
                elif meth == 'reverse':
                    new = c[::-1]
                elif meth == 'clear':
                    new = ()
                elif meth == 'pop' and c:
                    x = list(c)
                    if not args or is_k(args[0]):
                        x.pop(*[a[2] for a in args])
                        new = tuple(x)
            if new is not None:
                ob = dict(ob)
                ob['__const__'] = new
                ob['__len__'] = None
                st.heap[o[1]] = ob
                self.h.on_mutate(self, st, o, meth, args, node, frame)
                return
        Interp.mutate(self, o, meth, args, st, node, frame)

    def store_item(self, o, k, v, st, node, frame):
        if o[0] == 'ref' and o[1] in st.heap and st.heap[o[1]].get('__cls__') in ('list', 'bytearray') and is_k(k) and isinstance(k[2], int):
            ob = dict(st.heap[o[1]])
            c = ob.get('__const__')
            if c is not None and -len(c) <= k[2] < len(c):
                x = list(c)
                x[k[2]] = v
                ob['__const__'] = tuple(x)
                st.heap[o[1]] = ob
                self.h.on_substore(self, st, o, k, v, node, frame)
                return [st]
        return Interp.store_item(self, o, k, v, st, node, frame)

    def binop(self, o, a, b, st, node, frame):
        a, b = self.resolve(a, st), self.resolve(b, st)
        name = self._OPS.get(type(o), ('op', None))[0]
        la, lb = self.items(a, st), self.items(b, st)
        new = None
        if name == 'mul' and la is not None and is_k(b) and isinstance(b[2], int) and len(la[1]) * max(b[2], 0) <= 4096:
            new = la[0], la[1] * b[2]
        elif name == 'add' and la is not None and lb is not None and la[0] == lb[0]:
            new = la[0], la[1] + lb[1]
        elif name == 'mod' and is_k(a) and isinstance(a[2], (str, bytes)):
            ok, c = self.const(b, st)
            if ok and isinstance(c, (int, str, bytes, tuple, dict)):
                try:
                    return [(K(a[2] % c), st)]
                except Exception as ex:
                    frame.raises.append((type(ex).__name__, st.fork(), node))
                    return []
        if new is not None:
            return [(tup(*new[1]) if new[0] == 'tuple' else self.new_container(new[0], tuple(new[1]), st, node), st)]
        return Interp.binop(self, o, a, b, st, node, frame)

    def items(self, v, st):
        if v[0] == 'tup':
            return 'tuple', tuple(v[1])
        if v[0] == 'ref' and v[1] in st.heap and st.heap[v[1]].get('__cls__') == 'list' and st.heap[v[1]].get('__const__') is not None:
            return 'list', tuple(st.heap[v[1]]['__const__'])
        return None

    def decide(self, c, st):
        if c[0] == 'op' and c[1] in ('is', 'eq') and len(c) == 4:
            x, y = self.resolve(c[2], st), self.resolve(c[3], st)
            if x[0] == 'ext' and y[0] == 'ext' and x[1].startswith('builtins.') and y[1].startswith('builtins.'):
                return x == y
            if set([x[0], y[0]]) == set(['cls', 'ext']) and (x[1] if x[0] == 'ext' else y[1]).startswith('builtins.'):
                return False
        if c[0] == 'op' and c[1] in ('in', 'eq', 'lt', 'le') and len(c) == 4:
            x, y = self.const(c[2], st), self.const(c[3], st)
            if x[0] and y[0]:
                try:
                    return {'in': lambda a, b: a in b, 'eq': lambda a, b: a == b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b}[c[1]](x[1], y[1])
                except TypeError:
                    pass
        return Interp.decide(self, c, st)

    def builtin_method(self, o, name, args, kwargs, st, node, frame):
        o = self.resolve(o, st)
        args = [self.resolve(a, st) for a in args]
        if o[0] == 'ref' and o[1] in st.heap:
            ob = st.heap[o[1]]
            c = ob.get('__const__')
            if ob.get('__cls__') == 'dict' and name in ('items', 'keys', 'values') and not args and not kwargs:
                ps = self.pairs(o, st)
                if ps is not None:
                    xs = [tup(k, v) if name == 'items' else k if name == 'keys' else v for k, v in ps]
                    return [(self.new_container('list', tuple(xs), st, node), st)]
            if ob.get('__cls__') == 'BytesIO' and c is not None and name in ('getvalue', 'read') and not args:
                if all(is_k(x) for x in c):
                    try:
                        return [(K((b'' if not c else type(c[0][2])()).join(x[2] for x in c)), st)]
                    except TypeError:
                        frame.raises.append(('TypeError', st.fork(), node))
                        return []
            ks = ob.get('__keys__') if ob.get('__cls__') == 'dict' else None
            if ks is not None and name in ('keys', 'values') and not args and len(ks) <= self.h.unroll and \
                    all(('key', k) in ob for k in ks):
                ks = [k for k in ob if isinstance(k, tuple) and k[0] == 'key' and k[1] in ks]     # in order of insertion
                return [(self.new_container('list', tuple(k[1] if name == 'keys' else ob[k] for k in ks), st, node), st)]
            if ob.get('__cls__') == 'list' and name == 'sort' and c is not None:
                r = self.keyed(list(c), kwargs, st, node, frame)
                if r is not None:
                    if r[1] is None:
                        return []
                    d = dict(r[1].heap[o[1]])
                    d['__const__'] = tuple(r[0])
                    r[1].heap[o[1]] = d
                    return [(NONE, r[1])]
            if ob.get('__cls__') in ('list', 'set', 'bytearray') and name == 'pop' and c and ob.get('__cls__') != 'set' and all(is_k(a) for a in args):
                try:
                    v = list(c).pop(*[a[2] for a in args])
                except IndexError:
                    frame.raises.append(('IndexError', st.fork(), node))
                    return []
                self.mutate(o, name, args, st, node, frame)
                return [(v, st)]
        ok, c = self.const(o, st)
        if ok and c is not None and name not in self._MUTATORS:
            cs = [self.const(a, st) for a in args]
            kw = dict((k, self.const(v, st)) for k, v in kwargs.items())
            if name == 'join' and len(args) == 1:
                e = self.concrete_iter(args[0], st)
                if e is not None:
                    cs = [self.const(x, st) for x in e]
                    cs = [(all(x[0] for x in cs), [x[1] for x in cs])]
            if all(x[0] for x in cs) and all(v[0] for v in kw.values()) and isinstance(c, (str, bytes, int, tuple, set, list, frozenset, dict,
                                                                                             datetime.datetime)):
                try:
                    r = self.wrap(getattr(c, name)(*[x[1] for x in cs], **dict((k, v[1]) for k, v in kw.items())), st, node)
                    if r is not None:
                        return [(r, st)]
                except Exception as ex:
                    frame.raises.append((type(ex).__name__, st.fork(), node))
                    return []
        return Interp.builtin_method(self, o, name, args, kwargs, st, node, frame)


FUNCS = {'int': int, 'str': str, 'ord': ord, 'chr': chr, 'abs': abs, 'min': min, 'max': max, 'bytes': bytes, 'tuple': tuple, 'round': round,
         'float': float, 'repr': repr, 'hex': hex, 'bin': bin, 'math.ceil': math.ceil, 'math.floor': math.floor, 'math.log': math.log,
         'divmod': divmod, 'pow': pow, 'sum': sum, 'any': any, 'all': all, 'int.from_bytes': int.from_bytes, 'int.to_bytes': int.to_bytes,
         'builtins.int.from_bytes': int.from_bytes, 'format': format, 'len': len, 'list': list, 'set': set, 'frozenset': frozenset,
         'datetime.timedelta': datetime.timedelta, 'datetime.timezone': datetime.timezone}
