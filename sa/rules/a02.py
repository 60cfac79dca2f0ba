"""A02: accessors only name components and members that exist."""
from .. import accessors
from ..model import ClassInfo

RULE = ('on every path, the name a structure is indexed, assigned or built with is one of its components, the attribute read from a component is '
        'defined by its type, and the constants a registry value, chosen alternative or set of named bits is compared with are values it can have')
EXPLANATION = ('The typed interpretation of A01: the exact type of every component is known on each path (declared type, type selected by the '
               'identifier, chosen alternative), so each name used on it is looked up in that type\'s definition.')
ASSUMPTIONS = ['components have the types their definitions declare']


def check(ctx):
    accessors.check(ctx, 'A02')
    for c in ctx.prog.asn1_classes():
        definition(ctx, c)
    ctx.need('accessors and callbacks analysed', 90)
    ctx.need('components followed', 250)
    ctx.need('names in definitions', 60)


def definition(ctx, c):
    """Names in the definitions themselves: what selects an open component, and what has a callback."""
    fs = c.get('_fields')
    if not isinstance(fs, (list, tuple)) or not fs:
        return
    names = [f[0] for f in fs if isinstance(f, (tuple, list)) and f]
    for attr in ('_oid_pair', '_spec_callbacks'):
        v, ow = c.lookup(attr)
        if not isinstance(v, (tuple, list, dict)) or ow is None:
            continue
        for x in v:
            ctx.count('names in definitions')
            if x not in names:
                ctx.report('%s %s %s' % (c.qual, attr, x), '%s:%s' % (c.module.relpath, getattr(c.node, 'lineno', '?')),
                           '%s names the component %r in %s, which it does not have' % (c.qual, x, attr))
