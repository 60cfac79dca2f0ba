"""Normal form of the type definitions (schemas) found in the source, shared by the S rules."""
from .model import ClassInfo, FuncInfo, PropertyInfo, InstStub, Unk, Evaluator

CLASSES = {'universal': 0, 'application': 1, 'context': 2, 'private': 3}


class Norm(object):
    def __init__(self, prog):
        self.prog = prog
        self._sig = {}

    # -- types
    def core_base(self, c):
        for b in c.mro:
            if b.module.name == 'core':
                return b.name
        return c.name

    def kind(self, c):
        names = set(b.name for b in c.mro if b.module.name == 'core')
        for k in ('Choice', 'Any', 'SetOf', 'SequenceOf', 'Set', 'Sequence', 'Concat'):
            if k in names:
                return k
        return 'Primitive'

    def tagpair(self, v, default=2):
        """explicit=/implicit= value -> list of [class, tag] (outermost last as written)"""
        if v is None:
            return None
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return [default, v]
        if isinstance(v, (tuple, list)) and len(v) == 2 and not isinstance(v[0], (tuple, list)):
            c = CLASSES.get(v[0], v[0]) if isinstance(v[0], str) else v[0]
            return [c, v[1]]
        return None

    def explicit(self, v):
        if v is None:
            return []
        if isinstance(v, (tuple, list)) and v and isinstance(v[0], (tuple, list)):
            return [self.tagpair(x) for x in v]
        t = self.tagpair(v)
        return [t] if t is not None else []

    def params(self, t, d):
        """Normal form of a component's parameters."""
        out = {}
        d = dict(d or {})
        if 'tag_type' in d:
            tt, tag, cls = d.pop('tag_type'), d.pop('tag', None), d.pop('class_', 2)
            d[tt] = (CLASSES.get(cls, cls), tag) if cls is not None else tag
        ex = self.explicit(d.pop('explicit', None))
        im = self.tagpair(d.pop('implicit', None))
        # tagging declared by the type itself is part of the type
        if ex:
            out['explicit'] = ex
        if im is not None:
            out['implicit'] = im
        if d.pop('optional', False):
            out['optional'] = True
        if 'default' in d:
            out['default'] = self.value(t, d.pop('default'))
        spec = d.pop('spec', None)
        if isinstance(spec, ClassInfo):
            out['spec'] = spec
        for k, v in d.items():
            if v is None or v is False:
                continue
            out[k] = self.value(None, v)
        return out

    def value(self, t, v):
        if isinstance(v, Unk):
            return v
        if isinstance(t, ClassInfo):
            m = t.get('_map')
            if isinstance(m, dict) and not isinstance(v, (dict, list, set, tuple, frozenset)) and v in m:
                return m[v]
        if isinstance(v, dict):
            ft = {}
            if isinstance(t, ClassInfo):
                for f in (t.get('_fields') or []):
                    if isinstance(f, (tuple, list)) and len(f) > 1:
                        ft[f[0]] = f[1]
            return {str(k): self.value(ft.get(k), x) for k, x in v.items()}
        if isinstance(v, (set, frozenset)):
            return sorted((self.value(t, x) for x in v), key=str)
        if isinstance(v, (tuple, list)):
            if isinstance(t, ClassInfo) and isinstance(t.get('_map'), dict):
                return sorted((self.value(t, x) for x in v), key=str)
            return [self.value(None, x) for x in v]
        if isinstance(v, bytes):
            return 'hex:' + v.hex()
        if isinstance(v, ClassInfo):
            return v.qual
        if isinstance(v, InstStub):
            return '%s(%s)' % (v.cls.qual if isinstance(v.cls, ClassInfo) else v.cls, ', '.join(map(repr, v.args)))
        return v

    def fields(self, c, attr):
        out = []
        fs = c.get(attr)
        if isinstance(fs, Unk):
            return fs
        for f in (fs or []):
            if isinstance(f, Unk) or not isinstance(f, (tuple, list)) or len(f) < 2:
                return Unk('component of %s' % c.qual)
            t = f[1]
            prm = f[2] if len(f) > 2 else {}
            if isinstance(t, Unk) or isinstance(prm, Unk):
                return Unk('component %s of %s' % (f[0], c.qual))
            out.append((f[0], t, self.params(t, prm)))
        return out

    def sig(self, c):
        if c in self._sig:
            return self._sig[c]
        k = self.kind(c)
        s = {'kind': k, 'base': self.core_base(c), 'tag': c.get('tag'), 'class_': c.get('class_'),
             'explicit': self.explicit(c.get('explicit')), 'implicit': self.tagpair(c.get('implicit'))}
        if k in ('Sequence', 'Set'):
            s['fields'] = self.fields(c, '_fields')
        elif k == 'Choice':
            s['fields'] = self.fields(c, '_alternatives')
        elif k in ('SequenceOf', 'SetOf'):
            s['child'] = c.get('_child_spec')
        elif k == 'Concat':
            s['children'] = list(c.get('_child_specs') or [])
        self._sig[c] = s
        return s

    def is_type(self, c):
        """an ASN.1 type: something that can be decoded"""
        return any(b.name in ('Asn1Value', 'Concat') for b in c.mro)


def tojson(v):
    if isinstance(v, ClassInfo):
        return '@' + v.qual
    if isinstance(v, dict):
        return {k: tojson(x) for k, x in sorted(v.items())}
    if isinstance(v, (list, tuple)):
        return [tojson(x) for x in v]
    if isinstance(v, Unk):
        return '?'
    return v
