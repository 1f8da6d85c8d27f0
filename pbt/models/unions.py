"""Reference model of unions: smart, left to right, tagged."""

from __future__ import annotations

import collections.abc
from typing import Any

import lib
import pydantic_core as pc
import specs
from core import X
from lib import Skip, mk
from specs import chance, pick

from . import compose, fields
from .compose import EXACT, Bad, Omitted, St, Track, UseDefault, bad, build, loc_item, node, prefix, run


def custom_error(schema: dict, value: Any) -> Bad | None:
    if 'custom_error_type' not in schema:
        return None
    return bad(schema['custom_error_type'], value, **(schema.get('custom_error_context') or {}))


_TITLES: dict[str, str] = {}


def title(schema: dict) -> str:
    key = repr(schema)
    if key not in _TITLES:
        if len(_TITLES) > 3000:
            _TITLES.clear()
        _TITLES[key] = pc.SchemaValidator(build(schema)).title
    return _TITLES[key]


def choice_of(c: Any) -> tuple[dict, str | None]:
    return c if isinstance(c, tuple) else (c, None)


@node('union')
def run_union(schema: dict, value: Any, st: St) -> Any:
    choices = schema['choices']
    if len(choices) == 1 and schema.get('auto_collapse', True):
        return run(choice_of(choices[0])[0], value, st)
    if fields.has_iterator(value):
        raise Skip  # the first choice would use it up
    errors: list[dict] = []
    fits: list[tuple[Any, Track]] = []
    smart = schema.get('mode', 'smart') == 'smart'
    murky = False
    for c in choices:
        sub, label = choice_of(c)
        track = Track()
        try:
            v = run(sub, value, st.but(track=track) if smart else st)
        except Bad as e:
            errors += prefix(e.errors, label if label is not None else title(sub))
            if not smart:
                st.murky()
            continue
        except (Omitted, UseDefault):
            if fits or murky or track.murky:
                raise Skip from None  # is a value that fits better than none at all?
            st.murky()
            raise
        if not smart:
            return v
        murky = murky or track.murky
        fits.append((v, track))
        if track.exactness == EXACT and track.fields is None and not murky:
            break  # nothing can be better
    if not fits:
        raise custom_error(schema, value) or Bad(errors)
    if murky:
        if len(fits) > 1:
            raise Skip
        st.murky()
    best, track = fits[0]
    if track.exactness != EXACT or track.fields is not None or murky:
        for v, t in fits[1:]:
            if t.exactness == EXACT and t.fields is None:
                best, track = v, t
                break
            if track.fields is not None and t.fields is not None and t.fields != track.fields:
                better = t.fields > track.fields
            else:
                better = t.exactness > track.exactness
            if better:
                best, track = v, t
    if st.track is not None:
        st.track.floor(track.exactness)
        if track.fields is not None:
            st.track.count(track.fields)
    return best


# ---------------------------------------------------------------------------------------------------------- tagged
def find_choice(choices: dict, tag: Any) -> Any:
    """The key of `choices` that `tag` names: of the same type first, then an equal one."""
    for k in choices:
        k = mk(k)
        if type(k) is type(tag) and isinstance(tag, (bool, int, str)) and k == tag:
            return k
    for k in choices:
        k = mk(k)
        try:
            if hash(k) == hash(tag) and k == tag:
                return k
        except TypeError:
            pass
    return fields.MISSING


def path_repr(alias: Any) -> str:
    if isinstance(alias, str):
        return f"'{alias}'"
    return ' | '.join('.'.join(f"'{k}'" if isinstance(k, str) else str(k) for k in p) for p in fields.alias_paths(alias))


@node('tagged-union')
def run_tagged(schema: dict, value: Any, st: St) -> Any:
    d = schema['discriminator']
    if isinstance(d, X):
        f = mk(d)
        tag = f(value)
        name = f.__name__ + '()'
        if tag is None:
            tag = fields.MISSING
    else:
        name = path_repr(d)
        attrs = st.from_attributes
        if attrs is None:
            attrs = schema.get('from_attributes', st.config.get('from_attributes', True))
        strict = bool(st.strict)
        if st.as_key:
            raise bad('dict_type', value)
        if st.mode != 'python' or not attrs:
            source = fields.open_dict(value, st, strict, compose.err('dict_type', value))
        elif isinstance(value, dict):
            source = fields.Source('dict', value)
        elif not strict and isinstance(value, collections.abc.Mapping):
            source = fields.Source('mapping', value)
        elif fields.attributes_ok(value):
            source = fields.Source('attrs', value)
        elif isinstance(value, tuple) and len(value) == 2 and isinstance(value[1], dict) and fields.attributes_ok(value[0]):
            source = fields.Source('attrs', value[0], value[1])
        else:
            raise bad('model_attributes_type', value)
        path, tag = source.find(fields.alias_paths(d))
        if path is None:
            tag = fields.MISSING
    if tag is fields.MISSING:
        raise custom_error(schema, value) or bad('union_tag_not_found', value, discriminator=name)
    if fields.has_iterator(tag) or ' at 0x' in str(tag):
        raise Skip
    choices = {repr(k): k for k in schema['choices']}
    key = find_choice(schema['choices'], tag)
    if key is fields.MISSING:
        raise custom_error(schema, value) or bad(
            'union_tag_invalid', value, discriminator=name, tag=str(tag), expected_tags=', '.join(repr(mk(k)) for k in choices.values()))
    sub = next(v for k, v in schema['choices'].items() if type(mk(k)) is type(key) and mk(k) == key)
    try:
        return run(sub, value, st)
    except Bad as e:
        raise Bad(prefix(e.errors, loc_item(tag))) from None


# ------------------------------------------------------------------------------------------------------ generation
CUSTOM_ERRORS = [
    {'custom_error_type': 'my_error', 'custom_error_message': 'told {x}', 'custom_error_context': {'x': 1}},
    {'custom_error_type': 'my_error', 'custom_error_message': 'told'},
    {'custom_error_type': 'greater_than', 'custom_error_context': {'gt': 42}},
    {'custom_error_type': 'bool_type'},
]
TAGS: list[list] = [['a', 'b'], ['a', 'b', 1], [1, 2], [True, 'x', 2], [X('enum', 'PlainE', 'A'), 'b'], [X('enum', 'StrE', 'A'), 'b'],
                    [X('enum', 'IntE', 'ONE'), 'one'], ['a', 'b', 'c'], [False, 1], [2**70, 'a']]
DISCRIMINATORS: list[Any] = ['kind', 'kind', ['kind'], ['x', 'kind'], [['x', 'kind'], ['kind']], [['b'], ['kind']], ['x', 0], X('df', 'kind_of'),
                             X('df', 'type_name')]


def union_spec(s, mode: str, depth: int, sub: Any) -> dict:
    n = 2 + s.draw(3)
    out: dict = {'type': 'union', 'choices': []}
    family = s.draw(5)
    for _ in range(n):
        if family == 0:
            c = specs.leaf_spec(s)
        elif family == 1:
            c = overlapping(s, mode, depth)
        elif family == 2:
            c = specs.container_spec(s, mode, 1)
        else:
            c = sub(s, mode, depth - 1)
        k = s.draw(5)
        if k == 4:
            c = (c, pick(s, ['one', 'two', 'x']))
        out['choices'].append(c)
    if chance(s, 1, 3):
        out['mode'] = pick(s, ['smart', 'left_to_right'])
    if chance(s, 1, 8):
        out.update(pick(s, CUSTOM_ERRORS))
    if chance(s, 1, 8):
        out['auto_collapse'] = bool(s.draw(2))
        out['choices'] = [without_default(choice_of(c)[0]) for c in out['choices'][:1 + s.draw(2)]]
    return out


def without_default(schema: dict) -> dict:
    return without_default(schema['schema']) if schema['type'] == 'default' else schema


def overlapping(s, mode: str, depth: int) -> dict:
    """Models, dataclasses and typed dicts which share field names."""
    leaf = lambda s, m, d: specs.leaf_spec(s)  # noqa: E731
    return [fields.typed_dict_spec, fields.model_spec, fields.dataclass_spec][s.draw(3)](s, mode, 1, leaf)


def nested_spec(s, depth: int) -> dict:
    """Objects within objects, with the same names everywhere: choices differ in how much of a value they take up."""
    fs = {}
    for n in ['p', 'q', 'r'][s.draw(2):][:1 + s.draw(3)]:
        k = s.draw(10)
        if depth <= 0 or k < 3:
            f = pick(s, [{'type': 'any'}, {'type': 'int'}, {'type': 'float'}, {'type': 'union', 'choices': [{'type': 'str'}, {'type': 'int'}]}])
        else:
            f = nested_spec(s, depth - 1)
            if k == 3:
                f = {'type': 'nullable', 'schema': f}
            elif k < 6:
                f = {'type': 'union', 'choices': [f, pick(s, [{'type': 'str'}, {'type': 'any'}]) if s.draw(2) else nested_spec(s, depth - 1)]}
            elif k == 6:
                f = {'type': 'union', 'mode': 'left_to_right', 'choices': [f, nested_spec(s, depth - 1)]}
            elif k == 7:
                f = {'type': 'tagged-union', 'discriminator': 'p', 'choices': {1: f, 2: nested_spec(s, depth - 1)}}
        if chance(s, 1, 4):
            f = {'type': 'default', 'schema': f, 'default': None}
        fs[n] = f
    if s.draw(2):
        return {'type': 'typed-dict', 'fields': {n: {'type': 'typed-dict-field', 'schema': f, **pick(s, [{}, {'required': False}] if f['type'] != 'default' else [{}])}
                                                 for n, f in fs.items()}}
    return {'type': 'model', 'cls': X('class', pick(s, ['M0', 'M2'])), 'schema': {
        'type': 'model-fields', 'fields': {n: {'type': 'model-field', 'schema': f} for n, f in fs.items()}}}


def nested_value(s, depth: int) -> Any:
    if depth < 0 or chance(s, 1, 6):
        return pick(s, [1, 2, '1', 1.5, None])
    return {n: nested_value(s, depth - 1) for n in ['p', 'q', 'r'] if s.draw(6)}


def tagged_spec(s, mode: str, depth: int, sub: Any) -> dict:
    tags = pick(s, TAGS)
    if mode == 'strings':
        tags = [t for t in tags if isinstance(t, str)] or ['a']
    out: dict = {'type': 'tagged-union', 'discriminator': pick(s, DISCRIMINATORS), 'choices': {}}
    if mode == 'strings' and out['discriminator'] == ['x', 0]:
        out['discriminator'] = 'kind'  # there are no lists
    for t in tags:
        c = tagged_spec(s, mode, depth - 1, sub) if depth > 1 and chance(s, 1, 8) else overlapping(s, mode, depth) if s.draw(3) else sub(s, mode, depth - 1)
        kind = {'schema': {'type': 'any'} if s.draw(2) or isinstance(t, X) and mode == 'json' else {'type': 'literal', 'expected': [t]}}
        if c['type'] == 'typed-dict':
            c['fields']['kind'] = {'type': 'typed-dict-field', **kind}
        elif c['type'] == 'model' and not c.get('root_model'):
            c['schema']['fields']['kind'] = {'type': 'model-field', **kind}
        out['choices'][t] = c
    if chance(s, 1, 4):
        out['from_attributes'] = bool(s.draw(2))
    if chance(s, 1, 8):
        out.update(pick(s, CUSTOM_ERRORS))
    return out


def tree(s, mode: str, depth: int) -> dict:
    k = s.draw(8)
    if depth > 0 and k < 3:
        return union_spec(s, mode, depth, tree)
    if depth > 0 and k == 3:
        return tagged_spec(s, mode, depth, tree)
    if depth > 0 and k < 6:
        kind = s.draw(4)
        if kind < 3:
            return [fields.typed_dict_spec, fields.model_spec, fields.dataclass_spec][kind](s, mode, depth, tree)
        sub = tree(s, mode, depth - 1)
        return pick(s, [{'type': 'list', 'items_schema': sub}, {'type': 'nullable', 'schema': sub},
                        {'type': 'dict', 'values_schema': sub}, {'type': 'tuple', 'items_schema': [sub], 'variadic_item_index': 0}])
    return specs.container_spec(s, mode, min(2, max(0, depth)))


def make_union(s, spec, mode, noise):
    c = pick(s, spec['choices'])
    return specs.value_for(s, choice_of(c)[0], mode, noise)


def make_tagged(s, spec, mode, noise):
    tag = pick(s, list(spec['choices']))
    v = specs.value_for(s, spec['choices'][tag], mode, noise)
    if noise and chance(s, 1, 12):
        tag = pick(s, ['a', 1, True, 'zz', None, 1.0, [1], 'A']) if mode != 'strings' else 'zz'
    target = v
    if isinstance(v, X) and v.kind in ('mapping', 'dict', 'odict', 'attrs', 'inst'):
        target = v.args[1] if v.kind == 'inst' else v.args[0]
    if isinstance(target, dict):
        d = spec['discriminator']
        path = ['kind'] if isinstance(d, X) or s.draw(4) == 3 else pick(s, fields.alias_paths(d))
        if mode == 'json' and isinstance(tag, X):
            tag = {"A": 'a', 'ONE': 1}.get(tag.args[1], 'a')
        fields.insert(target, path, tag, mode)
    return v


specs.VALUE_MAKERS.update({'union': make_union, 'tagged-union': make_tagged})
