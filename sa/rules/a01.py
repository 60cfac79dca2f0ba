"""A01: accessors treat absent optional components as absent."""
from .. import accessors

RULE = ('no path through an accessor, decoding callback, constructor or assignment of a library type uses an absent optional component, or the None '
        'its native value reads as, where a present value is needed (attribute or subscript of it, size comparison, iteration, length, arithmetic, '
        'argument of a function that needs a value); ValueError may be raised')
EXPLANATION = ('Every public property and method of the library\'s own structures, every spec callback, and every constructor and assignment is '
               'interpreted path by path with typed components: reading a component the definition marks optional forks into absent and present, an '
               'open component into each type its identifier can select, and each choice into its alternatives; what was chosen is remembered for '
               'the rest of the path, so that tests made by the accessor prune what cannot happen.')
ASSUMPTIONS = ['components have the types their definitions declare', 'primitives themselves decode (malformed contents are the subject of P01-P04)',
               'a component without the "optional" marker is present']


def check(ctx):
    accessors.check(ctx, 'A01')
    ctx.need('accessors and callbacks analysed', 90)
    ctx.need('optional components followed', 60)
