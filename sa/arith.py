"""Linear integer facts over the abstract values of flow.py, and inference of loop invariants and recursive summaries.

Facts on a path (comparisons assumed true or false) become linear inequalities over atoms; an obligation holds when its negation
together with them has no rational solution (Fourier-Motzkin elimination).  Invariants of loops and summaries of recursive functions
are guessed from templates and every guess that is not inductive is dropped, until the rest is."""
from .flow import Hooks, Interp, State, K, NONE, is_k, op, tup, TooComplex
from . import flow


def lin(v):
    """value -> ({atom: coef}, const) or None when it cannot be a number."""
    if v[0] == 'k':
        if v[1] in ('int', 'bool'):
            return {}, v[2]
        return None
    if v[0] in ('tup', 'cls', 'fn', 'mod', 'ref', 'sc'):
        return None
    if v[0] == 'op':
        if v[1] in ('add', 'sub'):
            a, b = lin(v[2]), lin(v[3])
            if a is None or b is None:
                return None
            s = 1 if v[1] == 'add' else -1
            d = dict(a[0])
            for k, c in b[0].items():
                d[k] = d.get(k, 0) + s * c
                if d[k] == 0:
                    del d[k]
            return d, a[1] + s * b[1]
        if v[1] == 'mul':
            a, b = lin(v[2]), lin(v[3])
            if a is not None and b is not None:
                if not a[0]:
                    a, b = b, a
                if not b[0]:
                    return dict((k, c * b[1]) for k, c in a[0].items() if b[1]), a[1] * b[1]
        if v[1] == 'bitor' and is_k(v[2]) and v[2][2] == 0:
            return lin(v[3])
        if v[1] == 'typed':
            return {v: 1}, 0
    return {v: 1}, 0


def sub(a, b):
    d = dict(a[0])
    for k, c in b[0].items():
        d[k] = d.get(k, 0) - c
        if d[k] == 0:
            del d[k]
    return d, a[1] - b[1]


def add_const(a, c):
    return a[0], a[1] + c


class Facts(object):
    """Inequalities e <= 0, from a state."""

    def __init__(self, ip, st, extra=()):
        self.ip, self.st = ip, st
        self.ineqs = []
        self.done = set()
        self.todo = []
        for c, val in list(st.facts.items()):
            self.fact(c, val)
        for e in extra:
            self.add(e)
        self.close()

    def add(self, e):
        self.ineqs.append(e)
        self.todo += [a for a in e[0] if a not in self.done]

    def fact(self, c, val):
        if not (isinstance(c, tuple) and c and c[0] == 'op'):
            if isinstance(c, tuple) and c and c[0] == 'val' and is_k(val) and val[1] in ('int', 'bool'):
                a = lin(c[1])
                if a is not None:
                    self.add((a[0], a[1] - val[2]))
                    self.add((dict((k, -x) for k, x in a[0].items()), val[2] - a[1]))
            return
        n = c[1]
        if n in ('lt', 'le') and len(c) == 4:
            a, b = lin(c[2]), lin(c[3])
            if a is None or b is None:
                return
            if val:
                self.add(add_const(sub(a, b), 1 if n == 'lt' else 0))
            else:
                self.add(add_const(sub(b, a), 0 if n == 'lt' else 1))
        elif n == 'eq' and val and len(c) == 4:
            a, b = lin(c[2]), lin(c[3])
            if a is None or b is None:
                return
            self.add(sub(a, b))
            self.add(sub(b, a))
        elif n == 'truth' and len(c) == 3:
            x = c[2]
            lo, hi = self.interval(x)
            if not val and self.intlike(x):
                a = lin(x)
                if a is not None:
                    self.add(a)
                    self.add(sub(({}, 0), a))
            elif val and lo is not None and lo >= 0 and self.intlike(x):
                a = lin(x)
                self.add(sub(({}, 1), a))

    def intlike(self, x):
        ts = self.ip.types(x, self.st)
        return (ts is not None and ts <= frozenset(['int', 'bool'])) or (x[0] == 'op' and x[1] in ('bitand', 'rshift', 'len', 'add', 'sub', 'mul'))

    def interval(self, a, d=0):
        """(lo, hi) known for an atom from its shape alone."""
        if d > 6:
            return None, None
        if is_k(a):
            return (a[2], a[2]) if a[1] in ('int', 'bool') else (None, None)
        if a[0] != 'op':
            return None, None
        n = a[1]
        if n == 'len':
            return 0, None
        if n in ('index',):
            ts = self.ip.types(a[2], self.st)
            if ts is not None and ts <= frozenset(['bytes', 'bytearray']):
                return 0, 255
            return None, None
        if n == 'builtin' and is_k(a[2]):
            if a[2][2] == 'ord':
                return 0, None
            if a[2][2] in ('len', 'abs'):
                return 0, None
        if n == 'bitand':
            los, his = [], []
            for x in (a[2], a[3]):
                lo, hi = self.interval(x, d + 1)
                if lo is not None and lo >= 0:
                    los.append(0)
                    if hi is not None:
                        his.append(hi)
            return (0 if los else None), (min(his) if his else None)
        if n == 'rshift' and is_k(a[3]) and isinstance(a[3][2], int) and a[3][2] >= 0:
            lo, hi = self.interval(a[2], d + 1)
            return (lo >> a[3][2] if lo is not None else None), (hi >> a[3][2] if hi is not None else None)
        if n == 'lshift' and is_k(a[3]):
            lo, hi = self.interval(a[2], d + 1)
            return (0 if lo is not None and lo >= 0 else None), None
        if n == 'mod' and is_k(a[3]) and isinstance(a[3][2], int) and a[3][2] > 0:
            return 0, a[3][2] - 1
        if n in ('add', 'mul'):
            x, y = self.interval(a[2], d + 1), self.interval(a[3], d + 1)
            if None not in x + y:
                if n == 'add':
                    return x[0] + y[0], x[1] + y[1]
                ps = [p * q for p in x for q in y]
                return min(ps), max(ps)
            if x[0] is not None and y[0] is not None and x[0] >= 0 and y[0] >= 0:
                return (x[0] + y[0] if n == 'add' else x[0] * y[0]), None
        if unsigned(a):
            return 0, None
        return None, None

    def close(self):
        n = 0
        while self.todo and n < 400:
            n += 1
            a = self.todo.pop()
            if a in self.done:
                continue
            self.done.add(a)
            lo, hi = self.interval(a)
            if lo is not None:
                self.ineqs.append(({a: -1}, lo))
            if hi is not None:
                self.ineqs.append(({a: 1}, -hi))
            if a[0] == 'op' and a[1] == 'rshift' and is_k(a[3]) and isinstance(a[3][2], int) and a[3][2] >= 1:
                b = lin(a[2])
                if b is not None:
                    # x >> k <= x/2 for x >= 0
                    if self.quick_nonneg(a[2]):
                        e = sub(({a: 2}, 0), b)
                        self.add(e)
                        self.ineqs.append(({a: -1}, 0))
            if a[0] == 'op' and a[1] == 'floordiv' and is_k(a[3]) and isinstance(a[3][2], int) and a[3][2] >= 1:
                b = lin(a[2])
                if b is not None:
                    self.add(sub(({a: a[3][2]}, 0), b))
                    self.add(add_const(sub(b, ({a: a[3][2]}, 0)), 1 - a[3][2]))
            if a[0] == 'op' and a[1] == 'loop' and False:
                pass

    def quick_nonneg(self, v):
        return self.entails(lin(K(0)), lin(v), quick=True)

    def entails(self, a, b, quick=False):
        """a <= b on every model?"""
        if a is None or b is None:
            return False
        goal = sub(a, b)
        if not goal[0]:
            return goal[1] <= 0
        if not quick:
            self.todo += [x for x in goal[0] if x not in self.done]
            self.close()
        neg = (dict((k, -c) for k, c in goal[0].items()), -goal[1] + 1)     # b - a + 1 <= 0
        return infeasible(relevant(self.ineqs, neg) + [neg])

    def inconsistent(self):
        return infeasible(self.ineqs)


def unsigned(a):
    """int.from_bytes(..., signed=False)"""
    if a[0] == 'op' and a[1] == 'meth' and len(a) > 3 and is_k(a[3]) and a[3][2] == 'from_bytes':
        for x in a[4:]:
            if x[0] == 'op' and x[1] == 'kwarg' and x[2] == K('signed') and x[3] == K(True):
                return False
            if x[0] == 'op' and x[1] == 'kwarg' and x[2] == K('signed') and not is_k(x[3]):
                return False
        return True
    if a[0] == 'op' and a[1] == 'builtin' and is_k(a[2]) and str(a[2][2]).endswith('int.from_bytes'):
        for x in a[3:]:
            if x[0] == 'op' and x[1] == 'kwarg' and x[2] == K('signed') and x[3] != K(False):
                return False
        return True
    return False


def relevant(ineqs, goal):
    """Constraints connected to the goal's atoms."""
    atoms = set(goal[0])
    out, rest = [], list(ineqs)
    changed = True
    while changed:
        changed = False
        nr = []
        for e in rest:
            if not e[0]:
                if e[1] > 0:
                    out.append(e)
                continue
            if atoms & set(e[0]):
                out.append(e)
                if len(out) < 120:
                    atoms |= set(e[0])
                changed = True
            else:
                nr.append(e)
        rest = nr
    return out


_memo = {}


def infeasible(ineqs):
    """No rational point satisfies all of `ineqs` (with integer tightening)?"""
    from math import gcd
    ids, cur = {}, {}
    for e, c0 in ineqs:
        if not e:
            if c0 > 0:
                return True
            continue
        k = frozenset([(ids.setdefault(a, len(ids)), c) for a, c in e.items()])
        if k not in cur or cur[k] < c0:
            cur[k] = c0
    key = frozenset(cur.items())
    if key in _memo:
        return _memo[key]
    r = _memo[key] = _eliminate(dict((k, (dict(k), c)) for k, c in cur.items()), gcd)
    return r


def _eliminate(cur, gcd):
    while cur:
        pos, neg = {}, {}
        for e, _ in cur.values():
            for a, c in e.items():
                d = pos if c > 0 else neg
                d[a] = d.get(a, 0) + 1
        # atoms bounded on one side only can be dropped with everything that mentions them
        free = set(a for a in pos if a not in neg) | set(a for a in neg if a not in pos)
        if free:
            cur = dict((k, v) for k, v in cur.items() if not any(a in free for a in v[0]))
            continue
        best = min(pos, key=lambda a: (pos[a] * neg[a], a))
        ps, ns, rest = [], [], {}
        for k, v in cur.items():
            c = v[0].get(best, 0)
            if c > 0:
                ps.append(v)
            elif c < 0:
                ns.append(v)
            else:
                rest[k] = v
        for pe, pc in ps:
            cp = pe[best]
            for qe, qc in ns:
                cq = -qe[best]
                d = dict((a, c * cq) for a, c in pe.items())
                for a, c in qe.items():
                    x = d.get(a, 0) + c * cp
                    if x:
                        d[a] = x
                    else:
                        d.pop(a, None)
                c0 = pc * cq + qc * cp
                if not d:
                    if c0 > 0:
                        return True
                    continue
                g = 0
                for c in d.values():
                    g = gcd(g, c)
                    if g == 1:
                        break
                if g > 1:
                    # integer tightening
                    d = dict((a, c // g) for a, c in d.items())
                    c0 = -((-c0) // g)
                k = frozenset(d.items())
                if k not in rest or rest[k][1] < c0:
                    rest[k] = (d, c0)
        if len(rest) > 1500:
            return False
        cur = rest
    return False


class Arith(Hooks):
    """Hooks that infer loop invariants and summaries of recursive functions; subclass for obligations."""
    arith = True
    max_states = 200
    max_recursion = 1

    def __init__(self, summarised=()):
        self.dropped = set()
        self.changed = False
        self.used = set()
        self.summarised = set(summarised)       # FuncInfos never inlined
        self.backedges = []

    # ---- invariants
    def bounds(self, entry, names):
        out = []
        for n, v in sorted(entry.env.items()):
            if n in names or n.startswith('#') or not isinstance(v, tuple) or is_k(v):
                continue
            if lin(v) is not None and v[0] in ('sym', 'op'):
                out.append((n, v))
            if v[0] == 'sym' or v[0] == 'op':
                out.append(('len(%s)' % n, op('len', v)))
        return out[:14]

    def candidates(self, names, entry, node, frame):
        for n in sorted(names):
            e0 = entry.env.get(n)
            key = (frame.fi.qual, node.lineno, n)
            if e0 is not None and isinstance(e0, tuple) and lin(e0) is not None:
                yield key + ('>=entry',), n, 'ge', e0
                yield key + ('<=entry',), n, 'le', e0
            for bn, b in self.bounds(entry, names):
                yield key + ('<=' + bn,), n, 'le', b

    def on_head(self, ip, st, names, entry, node, frame):
        for key, n, kind, b in self.candidates(names, entry, node, frame):
            if key in self.dropped:
                continue
            v = st.env.get(n)
            if v is None or not isinstance(v, tuple) or lin(v) is None:
                continue
            st.facts[op('le', b, v) if kind == 'ge' else op('le', v, b)] = True

    def on_backedge(self, ip, head, st, names, entry, node, frame):
        F = Facts(ip, st)
        for key, n, kind, b in self.candidates(names, entry, node, frame):
            if key in self.dropped:
                continue
            v = st.env.get(n)
            ok = isinstance(v, tuple) and lin(v) is not None and (
                F.entails(lin(b), lin(v)) if kind == 'ge' else F.entails(lin(v), lin(b)))
            if not ok:
                self.dropped.add(key)
                self.changed = True
        self.rank(ip, F, head, st, names, entry, node, frame)

    def rank(self, ip, F, head, st, names, entry, node, frame):
        pass


def solve(make, run, rounds=40):
    """Repeat the analysis until no guess is dropped; `make()` -> hooks, `run(hooks)`."""
    dropped = set()
    for _ in range(rounds):
        h = make()
        h.dropped |= dropped
        run(h)
        if h.dropped == dropped:
            return h
        dropped = set(h.dropped)
    return h
