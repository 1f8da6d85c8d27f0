from __future__ import annotations

import serspecs as ss
from core import Test, X
from gen import Strategy
from models import serrun

RULE = 'some filter is given and the result with it differs from the result without'
ASSUMPTIONS = ('filters are sets or dicts of str and int keys, at most one of which names a given item (a negative index and its positive form are '
               'one); dict keys of schema filters do not collide by hash')


def case_of(functions, schema_filters):
    def go(s):
        g = ss.G(noise=25, functions=functions, schema_filters=schema_filters, unions=s.draw(2) == 1)
        sp = ss.spec(s, g, 1 + s.draw(3))
        v = ss.value(s, sp, g)
        kw = ss.filter_kw(s, v)
        if s.draw(5) == 4:
            kw.update(ss.exclusion_kw(s))
        return sp, v, ss.config(s) if s.draw(4) == 3 else {}, kw

    return lambda: Strategy(go)


def check(case, rec):
    sp, v, config, kw = case
    if ambiguous(kw):
        raise serrun.Skip
    out = serrun.check(sp, v, config, kw)
    rec.label(out['json'][0], sp['type'])
    filtered = 'include' in kw or 'exclude' in kw or "'include-exclude" in repr(sp)
    if filtered and out['json'][0] == 'ok' and "X('gen'" not in repr(v):
        bare = {k: x for k, x in kw.items() if k not in ('include', 'exclude')}
        rest = serrun.run(out['serializer'].to_json, out['value'], warnings=False, **bare)
        rec.nontrivial(rest[0] != 'ok' or rest[1] != out.get('text') or "'include-exclude" in repr(sp))


def shape(s, depth):
    """A schema of containers all the way down and a dense value of it."""
    if depth == 0:
        return {'type': 'int'}, lambda: s.draw(10)
    sub, val = shape(s, depth - 1)
    k = s.draw(8)
    if k < 2:
        n = 1 + s.draw(3)
        return {'type': 'list', 'items_schema': sub}, lambda: [val() for _ in range(n)]
    if k == 2:
        return {'type': 'tuple', 'items_schema': [sub, sub]}, lambda: (val(), val())
    if k < 5:
        return {'type': 'dict', 'keys_schema': {'type': 'str'}, 'values_schema': sub}, lambda: {n: val() for n in 'abc'}
    if k == 5:
        fields = {n: {'type': 'typed-dict-field', 'schema': sub, **({'serialization_exclude': True} if s.draw(8) == 7 else {})} for n in 'abc'}
        return {'type': 'typed-dict', 'fields': fields}, lambda: {n: val() for n in 'abc'}
    if k == 6:
        fields = {n: {'type': 'model-field', 'schema': sub} for n in 'ab'}
        sp = {'type': 'model', 'cls': X('class', 'M0'), 'schema': {'type': 'model-fields', 'fields': fields, 'extra_behavior': 'allow'}, 'extra_behavior': 'allow'}
        return sp, lambda: X('inst', 'M0', {n: val() for n in 'ab'}, ['a', 'b', 'c'], {'c': val()})
    return {'type': 'any'}, (lambda: [val(), val()]) if s.draw(2) else lambda: {n: val() for n in 'abc'}


def selection(s, depth):
    k = s.draw(8)
    if depth == 0 or k == 7:
        return ... if s.draw(4) else True
    keys = [x for x in ((-1, -2) if s.draw(6) == 5 else (0, 1, 2)) + ('a', 'b', 'c', '__all__') if s.draw(2)]
    if k == 6:
        return set(keys)
    return {x: selection(s, depth - 1) for x in keys}


def deep(s):
    depth = 2 + s.draw(2)
    sp, val = shape(s, depth)
    kw = {}
    k = 1 + s.draw(3)
    for name, bit in (('include', 1), ('exclude', 2)):
        if k & bit:
            f = selection(s, depth)
            kw[name] = f if isinstance(f, (dict, set)) else {'__all__': f}
    return sp, val(), {}, kw


def ambiguous(f):
    """An index and its negative form may name the same item."""
    if not isinstance(f, (dict, set)):
        return False
    ints = [k for k in f if isinstance(k, int)]
    if any(k < 0 for k in ints) and any(k >= 0 for k in ints) and len({k % n for k in ints for n in (1, 2, 3, 4)}) >= 0:
        for n in range(1, 5):
            xs = [k + n if k < 0 else k for k in ints if -n <= k < n]
            if len(set(xs)) != len(xs):
                return True
    return any(ambiguous(x) for x in f.values()) if isinstance(f, dict) else False


TESTS = [
    Test('deep', lambda: Strategy(deep), check, 60000, 1500000),
    Test('call', case_of(False, False), check, 120000, 1500000),
    Test('schema', case_of(False, True), check, 60000, 800000),
    Test('functions', case_of(True, True), check, 40000, 600000),
]
