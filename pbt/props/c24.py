from __future__ import annotations

import serspecs as ss
from core import Test
from gen import Strategy
from lib import ensure, same
from models import serrun

RULE = 'a function, format or to-string serializer is in the schema'
ASSUMPTIONS = 'serializer functions are deterministic; field serializers are used on fields of models and dataclasses'


def case(s):
    g = ss.G(noise=25, functions=True, unions=s.draw(3) == 2)
    g.dense = True
    sp = ss.spec(s, g, 1 + s.draw(3))
    if 'serialization' not in repr(sp):
        sp = {**sp, 'serialization': ss.ser_function(s, g)} if sp['type'] != 'default' else {'type': 'list', 'items_schema': {**sp['schema'], 'serialization': ss.ser_function(s, g)}}
    v = ss.value(s, sp, g)
    kw = ss.exclusion_kw(s) if s.draw(3) == 2 else {}
    if s.draw(3) == 2:
        kw.update(ss.filter_kw(s, v))
    if s.draw(3) == 2:
        kw['context'] = {'k': s.draw(3)}
    return sp, v, ss.config(s) if s.draw(4) == 3 else {}, kw


def check(case, rec):
    from props.c09 import ambiguous

    sp, v, config, kw = case
    if ambiguous(kw):
        raise serrun.Skip
    out = serrun.check(sp, v, config, kw)
    rec.label(out['json'][0])
    for name in ('function-plain', 'function-wrap', 'format', 'to-string', 'when_used', 'is_field_serializer', 'info_arg', 'return_schema'):
        if f"'{name}'" in repr(sp):
            rec.label(name)
    rec.nontrivial()


TESTS = [Test('functions', lambda: Strategy(case), check, 120000, 1500000)]
