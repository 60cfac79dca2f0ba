"""S04: open types are decoded as the type their identifier stands for."""
import json
import os
from ..model import Program, ClassInfo, Unk, _Raise, _Unknown
from .. import selector as S
from .s03 import Compare, ORACLE as SCHEMAS

RULE = ('For every component whose type depends on an identifier and every identifier of the registry (plus an unrecognised one), '
        'constant propagation of the selection code gives the (outer, nested) type of the oracle; it consults no other component; it '
        'gives the same answer whatever was selected before; every key of a selection table is a name its registry can produce; and '
        'the per-class preparation leaves exactly the open components to be selected at decoding time.')
EXPLANATION = ('Specialisation of the decoder\'s selection code to each registry entry by constant propagation (no decoding is '
               'executed); the resulting finite tables are compared with sa/oracle/s04.json, reviewed against the standards.')
ASSUMPTIONS = ['the oracle is right', 'identifiers the oracle does not list are additions and not judged']
ORACLE = os.path.join(os.path.dirname(SCHEMAS), 's04.json')


def same(cmp_, got, ref):
    if ref is None or got is None:
        return got is None and ref is None
    return cmp_.conforms(got, ref)


def show(t):
    return ' holding '.join(getattr(x, 'qual', str(x)) for x in t if x is not None)


def check(ctx):
    oracle = json.load(open(ORACLE))
    cmp_ = Compare(ctx, json.load(open(SCHEMAS)))
    p = Program()
    cmp_.by = {c.qual: c for c in p.classes()}
    seen = set()
    for c in p.classes():
        for i, name in S.open_components(c):
            ctx.count('open_components')
            label = '%s %s' % (c.qual, name)
            seen.add(label)
            try:
                S.prepare(p, c)
            except (_Raise, _Unknown) as e:
                if isinstance(e, _Raise):
                    ctx.report('prepare %s' % c.qual, c.where, 'preparing %s fails: %s' % (c.qual, e))
                else:
                    ctx.undec('preparation of %s' % c.qual)
            pre = c.get('_precomputed_specs')
            if isinstance(pre, list) and len(pre) == len(c.get('_fields')) and pre[i]:
                ctx.report('fixed %s' % label, c.where, 'component %s of %s is decoded as the fixed type %s although its identifier selects the type'
                           % (name, c.qual, show([x for x in pre[i] if isinstance(x, ClassInfo)][:1])))
            component(ctx, p, cmp_, c, i, name, oracle.get(label))
        tables(ctx, c)
    for label, w in sorted(oracle.items()):
        if label in seen:
            continue
        q, name = label.split(' ')
        c = cmp_.by.get(q)
        if c is None:
            continue
        f = [x for x in (c.get('_fields') or []) if isinstance(x, (tuple, list)) and x[0] == name]
        if f:
            ctx.report('unselected %s' % label, c.where, 'the type of component %s of %s no longer depends on its identifier' % (name, q))
    ctx.need('open_components', 20)
    ctx.need('selections', 250)


def component(ctx, p, cmp_, c, i, name, want):
    label = '%s %s' % (c.qual, name)
    run = S.Run(p)
    stub = S.Stub(run, c, ())
    path, t, other = S.table(p, c, i, run=run, stub=stub)
    p2, t2, _ = S.table(p, c, i, reverse=True, run=run, stub=stub)
    for x in sorted(other, key=str):
        ctx.report('depends %s %s' % (label, x), c.where, 'the type of component %s of %s depends on %s, which is not an identifier' % (name, c.qual, '.'.join(x)))
    rows = {}
    if want is not None:
        rows = {(r[0]): (r[1], r[2]) for r in want['rows']}
        if (list(path) if path else None) != want['selector'] and not other:
            ctx.report('selector %s' % label, c.where, 'the type of component %s of %s is selected by %s instead of %s' % (name, c.qual, path, want['selector']))
            return
    for k, v in t.items():
        ctx.count('selections')
        if isinstance(k, tuple):
            ctx.report('selector %s %s' % (label, '.'.join(k[0])), c.where, 'the type of component %s of %s also depends on %s' % (name, c.qual, '.'.join(k[0])))
            return
        if isinstance(v, Unk):
            ctx.undec('%s for %s' % (label, k))
            continue
        if isinstance(v, str):
            ctx.report('fails %s %s' % (label, k), c.where, 'selecting the type of component %s of %s for the identifier %s fails: %s' % (name, c.qual, k, v))
            continue
        v2 = t2.get(k)
        if isinstance(v2, tuple) and v2 != v:
            ctx.report('history %s' % label, c.where, 'for the identifier %s component %s of %s is decoded as %s or as %s, depending on what was decoded before'
                       % (k, name, c.qual, show(v), show(v2)))
        if k in rows:
            a, b = same(cmp_, v[0], rows[k][0]), same(cmp_, v[1], rows[k][1])
            if a is None or b is None:
                ctx.undec('%s for %s' % (label, k))
            elif not (a and b):
                ctx.report('type %s %s' % (label, k), c.where, 'for the identifier %s component %s of %s is decoded as %s instead of %s'
                           % (k, name, c.qual, show(v), ' holding '.join(x for x in rows[k] if x)))
    ctx.sample('selection', '%s by %s: %d identifiers' % (label, '.'.join(path or ()), len(t)), cap=60)


def tables(ctx, c):
    cb, fs = c.attrs.get('_spec_callbacks'), c.get('_fields')
    if isinstance(cb, dict) and isinstance(fs, (list, tuple)) and fs:
        have = [f[0] for f in fs if isinstance(f, (tuple, list))]
        for k in cb:
            if k not in have:
                ctx.report('callback %s %s' % (c.qual, k), c.where, '%s selects a type for a component %r it does not have' % (c.qual, k))
    specs = c.attrs.get('_oid_specs')
    if not isinstance(specs, dict) or not specs:
        return
    names = set()
    for f in (c.get('_fields') or []):
        if isinstance(f, (tuple, list)) and len(f) > 1 and isinstance(f[1], ClassInfo) and isinstance(f[1].get('_map'), dict):
            names |= set(f[1].get('_map').values())
    if not names:
        return
    for k in specs:
        ctx.count('table_entries')
        if isinstance(k, Unk):
            continue
        if k not in names and not (isinstance(k, str) and k[:1].isdigit()):
            ctx.report('unreachable %s %s' % (c.qual, k), c.where, 'the selection table of %s has an entry for %r, a name no identifier translates to' % (c.qual, k))
