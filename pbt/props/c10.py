from __future__ import annotations

import serspecs as ss
from core import Test
from gen import Strategy
from models import serrun

RULE = 'a model, dataclass or typed dict is in the schema and some exclusion or alias option is on'
ASSUMPTIONS = 'serialization aliases do not collide with other names; values define equality for exclude_defaults'


def case(s):
    g = ss.G(noise=25, unions=s.draw(4) == 3)
    k = s.draw(3)
    make = (ss.model_spec, ss.dataclass_spec, ss.typed_dict_spec)[k]
    sp = make(s, g, 1 + s.draw(2))
    if s.draw(4) == 3:
        sp = {'type': 'list', 'items_schema': sp} if s.draw(2) else {'type': 'dict', 'values_schema': sp}
    v = ss.value(s, sp, g)
    kw = ss.exclusion_kw(s)
    if s.draw(3) == 2:
        kw.update(ss.filter_kw(s, v))
    return sp, v, ss.config(s), kw


def check(case, rec):
    from props.c09 import ambiguous

    sp, v, config, kw = case
    if ambiguous(kw):
        raise serrun.Skip
    out = serrun.check(sp, v, config, kw)
    rec.label(out['json'][0], sp['type'], *kw)
    rec.nontrivial(kw and out['json'][0] == 'ok')


TESTS = [Test('fields', lambda: Strategy(case), check, 120000, 1500000)]
