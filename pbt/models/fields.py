"""Reference model of field lookup and of the objects built from fields: typed dicts, models, dataclasses."""

from __future__ import annotations

import collections.abc
import copy
from typing import Any

import gen as gen_
import lib
import pydantic_core as pc
import specs
from core import X
from lib import CLASSES, Skip, mk
from specs import chance, pick

from .compose import STRICT, Bad, line_errors, Omitted, St, bad, default_of, err, loc_item, node, prefix, run

MISSING = object()


# ---------------------------------------------------------------------------------------------------------- lookup
def alias_paths(alias: Any) -> list[list]:
    if isinstance(alias, str):
        return [[alias]]
    if isinstance(alias[0], str):
        return [alias]
    return alias


def lookup_paths(name: str, field: dict, st: St) -> list[list]:
    by_alias = st.by_alias if st.by_alias is not None else st.config.get('validate_by_alias', True)
    by_name = st.by_name if st.by_name is not None else st.config.get('validate_by_name', False)
    if not by_alias and not by_name:
        raise Skip  # not allowed
    alias = field.get('validation_alias')
    if alias is None or not by_alias:
        return [[name]]
    return alias_paths(alias) + ([[name]] if by_name else [])


def py_item(obj: Any, key: Any) -> Any:
    if isinstance(obj, str):
        return MISSING
    try:
        return obj[key]
    except Exception:
        return MISSING


def py_attr(obj: Any, key: str) -> Any:
    if isinstance(obj, dict):
        return py_item(obj, key)
    try:
        return getattr(obj, key)
    except AttributeError:
        return MISSING


def json_item(obj: Any, key: Any) -> Any:
    if isinstance(obj, dict):
        return obj.get(key, MISSING) if isinstance(key, str) else MISSING
    if isinstance(obj, list) and not isinstance(key, str):
        try:
            return obj[key]
        except IndexError:
            return MISSING
    return MISSING


class Source:
    """The thing fields are looked up in."""

    def __init__(self, kind: str, obj: Any, kwargs: dict | None = None):
        self.kind, self.obj, self.kwargs = kind, obj, kwargs

    def get(self, path: list) -> Any:
        if self.kind == 'attrs':
            if self.kwargs is not None:
                v = self.walk(self.kwargs, path, py_item)
                if v is not MISSING:
                    return v
            return self.walk(self.obj, path, lambda o, k: py_attr(o, k) if isinstance(k, str) else py_item(o, k))
        return self.walk(self.obj, path, json_item if self.kind == 'json' else py_item)

    @staticmethod
    def walk(obj: Any, path: list, step: Any) -> Any:
        for key in path:
            obj = step(obj, key)
            if obj is MISSING:
                break
        return obj

    def find(self, paths: list[list]) -> tuple[list | None, Any]:
        if self.kind == 'attrs' and self.kwargs is not None:
            # all of the keyword arguments come before any attribute
            for p in paths:
                v = self.walk(self.kwargs, p, py_item)
                if v is not MISSING:
                    return p, v
            return Source('attrs', self.obj).find(paths)
        for p in paths:
            try:
                v = self.get(p)
            except Exception as e:
                raise bad('get_attribute_error', self.obj, error=f'{type(e).__name__}: {e}') from None
            if v is not MISSING:
                return p, v
        return None, None

    def items(self):
        return list(self.obj.items())

    def last(self):
        keys = [k for k, _ in self.items()]
        return keys[-1] if keys else MISSING


def attributes_ok(obj: Any) -> bool:
    return type(obj).__module__ not in ('builtins', 'datetime', 'collections')


def open_dict(value: Any, st: St, strict: bool, refusal: dict) -> Source:
    if st.mode == 'json':
        if isinstance(value, dict):
            return Source('json', value)
    elif isinstance(value, dict):
        return Source('dict', value)
    elif st.mode == 'python' and not strict and isinstance(value, collections.abc.Mapping):
        return Source('mapping', value)
    raise Bad([{**refusal, 'input': value}])


def config_flag(schema: dict, st: St, key: str, config_key: str, default: Any) -> Any:
    v = schema.get(key)
    return v if v is not None else st.config.get(config_key, default)


def has_iterator(x: Any, seen: tuple = ()) -> bool:
    if isinstance(x, (dict, list, tuple, lib.Attrs, lib.ModelBase)):
        if id(x) in seen or len(seen) > 300:
            return False
        seen = (*seen, id(x))
    if isinstance(x, dict):
        return any(has_iterator(y, seen) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(has_iterator(y, seen) for y in x)
    if isinstance(x, (lib.Attrs, lib.ModelBase)):
        return has_iterator(object.__getattribute__(x, '__dict__'), seen)
    return hasattr(x, '__next__')


def use(used: set[str], path: list, v: Any) -> None:
    if path[0] in used and has_iterator(v):
        raise Skip  # two fields would read from one iterator
    used.add(path[0])


class Outcome:
    def __init__(self) -> None:
        self.data: dict = {}
        self.errors: list[dict] = []
        self.set: list[str] = []
        self.used: set[str] = set()


def validate_fields(fields: list[tuple[str, dict]], source: Source, value: Any, st: St, required: Any) -> Outcome:
    out = Outcome()
    by_loc = st.config.get('loc_by_alias', True)
    part = st.partial
    last = source.last() if part else MISSING
    st = st.but(data=out.data, partial=False)
    for name, field in fields:
        paths = lookup_paths(name, field, st)
        fst = st.but(field_name=name)
        try:
            path, v = source.find(paths)
        except Bad as e:
            out.errors += prefix(e.errors, name)
            continue
        if path is not None:
            if st.mode == 'strings' and not isinstance(v, (str, dict)):
                out.errors.append(err('string_type', v, name))
                continue
            use(out.used, path, v)
            is_last = part and isinstance(last, str) and path[0] == last
            if is_last:
                fst.partial = True
            try:
                out.data[name] = run(field['schema'], v, fst)
                out.set.append(name)
            except Omitted:
                pass
            except Bad as e:
                if not is_last or required(field):
                    out.errors += prefix(e.errors, *(path if by_loc else [name]))
                else:
                    st.murky()
            continue
        try:
            has, v = default_of(field['schema'], fst)
            if has:
                out.data[name] = v
            elif required(field):
                out.errors.append(err('missing', value, *(paths[0] if by_loc else [name])))
        except Omitted:
            pass
        except Bad as e:
            out.errors += prefix(e.errors, name)
    return out


def extra_items(out: Outcome, source: Source, st: St):
    """(key, value) of the input which no field has used; problems with keys go to out.errors."""
    for k, v in source.items():
        if not isinstance(k, str):
            if st.mode == 'strings':
                raise Skip
            yield k, v, False
        elif k not in out.used:
            if st.mode == 'strings' and not isinstance(v, (str, dict)):
                raise Skip
            yield ''.join(k), v, True


# ------------------------------------------------------------------------------------------------------ typed dict
@node('typed-dict')
def run_typed_dict(schema: dict, value: Any, st: St) -> Any:
    st = st.but(config=schema.get('config') or {})
    if st.as_key:
        raise bad('dict_type', value)
    source = open_dict(value, st, st.is_strict(schema), err('dict_type', value))
    total = config_flag(schema, st, 'total', 'typed_dict_total', True)
    out = validate_fields(list(schema['fields'].items()), source, value, st, lambda f: f.get('required', total))
    behaviour = config_flag(schema, st, 'extra_behavior', 'extra_fields_behavior', 'ignore')
    if behaviour != 'ignore':
        last = source.last() if st.partial else MISSING
        part, st = st, st.but(partial=False) if st.partial else st
        for k, v, good in extra_items(out, source, st):
            if not good:
                out.errors.append(err('invalid_key', k, loc_item(k)))
            elif behaviour == 'forbid':
                out.errors.append(err('extra_forbidden', v, loc_item(k)))
            elif 'extras_schema' in schema:
                try:
                    out.data[k] = run(schema['extras_schema'], v, part if k == last else st)
                except Bad as e:
                    if k != last:
                        out.errors += prefix(e.errors, loc_item(k))
                    else:
                        st.murky()
                except Omitted:
                    raise Skip from None
            else:
                out.data[k] = v
    if out.errors:
        raise Bad(out.errors)
    if st.track is not None:
        st.track.count(len(out.set))
    return out.data


# ----------------------------------------------------------------------------------------------------------- model
@node('model-fields')
def run_model_fields(schema: dict, value: Any, st: St) -> Any:
    if st.as_key:
        raise bad('model_type', value, class_name=schema.get('model_name', 'Model'))
    strict = st.is_strict(schema)
    attrs = st.from_attributes
    if attrs is None:
        attrs = config_flag(schema, st, 'from_attributes', 'from_attributes', False)
    refusal = err('model_type', value, class_name=schema.get('model_name', 'Model'))
    if not attrs or st.mode != 'python':
        source = open_dict(value, st, strict, refusal)
    elif isinstance(value, dict):
        source = Source('dict', value)
    elif not strict and isinstance(value, collections.abc.Mapping):
        source = Source('mapping', value)
    elif attributes_ok(value):
        source = Source('attrs', value)
    elif isinstance(value, tuple) and len(value) == 2 and isinstance(value[1], dict) and attributes_ok(value[0]):
        source = Source('attrs', value[0], value[1])
    else:
        raise bad('model_attributes_type', value)
    out = validate_fields(list(schema['fields'].items()), source, value, st, lambda f: True)
    behaviour = config_flag(schema, st, 'extra_behavior', 'extra_fields_behavior', 'ignore')
    extra: dict = {}
    count = len(out.set)
    if behaviour != 'ignore' and source.kind != 'attrs':
        for k, v, good in extra_items(out, source, st):
            if not good:
                out.errors.append(err('invalid_key', k, loc_item(k)))
                continue
            if behaviour == 'forbid':
                out.errors.append(err('extra_forbidden', v, loc_item(k)))
                continue
            key = k
            try:
                if 'extras_keys_schema' in schema:
                    key = run(schema['extras_keys_schema'], k, st.but(as_key=True) if st.mode == 'json' else st)
                if 'extras_schema' in schema:
                    v = run(schema['extras_schema'], v, st)
            except Bad as e:
                out.errors += prefix(e.errors, loc_item(k))
                continue
            except Omitted:
                raise Skip from None
            extra[key] = v
            out.set.append(key)
    if out.errors:
        raise Bad(out.errors)
    if st.track is not None:
        st.track.count(count)
    return out.data, extra if behaviour == 'allow' else None, set(out.set)


def function_error(e: BaseException, value: Any) -> Bad:
    """What an exception of a user's function becomes."""
    if isinstance(e, (pc.PydanticCustomError, pc.PydanticKnownError)):
        return bad(e.type, value, **(e.context or {}))
    if isinstance(e, lib.HandlerError):
        return Bad(e.errors_)
    if isinstance(e, pc.ValidationError):
        return Bad(line_errors(e))
    if isinstance(e, ValueError):
        return bad('value_error', value, error=repr(e))
    if isinstance(e, AssertionError):
        return bad('assertion_error', value, error=repr(e))
    raise e


def post_init(obj: Any, name: str | None, args: tuple, value: Any) -> None:
    if name:
        try:
            getattr(obj, name)(*args)
        except (ValueError, AssertionError) as e:
            raise function_error(e, value) from None


def revalidates(schema: dict, value: Any, cls: type) -> bool:
    how = schema.get('revalidate_instances') or (schema.get('config') or {}).get('revalidate_instances', 'never')
    return how == 'always' or (how == 'subclass-instances' and type(value) is not cls)


@node('model')
def run_model(schema: dict, value: Any, st: St) -> Any:
    st = st.but(config=schema.get('config') or {})
    cls = mk(schema['cls'])
    inner = value
    keep: set | None = None
    if st.mode == 'python':
        origin = mk(schema['generic_origin']) if 'generic_origin' in schema else None
        force = False
        instance = isinstance(value, cls)
        if not instance and origin is not None and isinstance(value, origin):
            instance = force = True
        if instance:
            if not force and not revalidates(schema, value, cls):
                return value
            keep = value.__pydantic_fields_set__
            if schema.get('root_model'):
                if 'root' not in value.__dict__:
                    raise Skip
                inner = value.__dict__['root']
            elif not hasattr(value, '__pydantic_extra__'):
                raise Skip  # made by a root model of the same class
            else:
                inner = {**value.__dict__, **(value.__pydantic_extra__ or {})}
        else:
            st.floor(STRICT)
    else:
        st.floor(STRICT)
    obj = cls.__new__(cls)
    if schema.get('root_model'):
        root = run(schema['schema'], inner, st.but(field_name='root'))
        obj.__dict__['root'] = root
        obj.__pydantic_fields_set__ = set() if value is pc.PydanticUndefined else {'root'}
    else:
        data, extra, fields_set = run(schema['schema'], inner, st)
        obj.__dict__.update(data)
        obj.__pydantic_extra__ = extra
        obj.__pydantic_private__ = None
        obj.__pydantic_fields_set__ = set(keep) if keep is not None else fields_set
    post_init(obj, schema.get('post_init'), (st.context,), inner)
    return obj


# ------------------------------------------------------------------------------------------------------- dataclass
@node('dataclass-args')
def run_dataclass_args(schema: dict, value: Any, st: St) -> Any:
    name = schema['dataclass_name']
    args: tuple | None = None
    kwargs: dict | None = None
    if st.mode == 'strings' and not isinstance(value, dict):
        raise bad('arguments_type', value)
    if isinstance(value, dict) and not st.as_key:
        kwargs = value
    elif isinstance(value, pc.ArgsKwargs):
        args, kwargs = value.args, value.kwargs
    else:
        raise bad('dataclass_type', value, class_name=name)
    if st.mode == 'strings' and not all(isinstance(v, (str, dict)) for v in kwargs.values()):
        raise Skip
    source = Source('json' if st.mode == 'json' else 'dict', kwargs) if kwargs is not None else None
    by_loc = st.config.get('loc_by_alias', True)
    data: dict = {}
    init_only: list = []
    errors: list[dict] = []
    used: set[str] = set()
    st = st.but(data=data)
    position = count = 0

    def put(field: dict, v: Any) -> None:
        if field.get('init_only'):
            init_only.append(v)
        else:
            data[field['name']] = v

    for field in schema['fields']:
        fname = field['name']
        fst = st.but(field_name=fname)
        if not field.get('init', True):
            try:
                has, v = default_of(field['schema'], fst)
                if has:
                    put(field, v)
                    st.murky()  # is such a field set?
            except Omitted:
                pass
            except Bad as e:
                errors += prefix(e.errors, fname)
            continue
        pos = MISSING
        index = position
        if not field.get('kw_only', True):
            position += 1
            if args is not None and index < len(args):
                pos = args[index]
        paths = lookup_paths(fname, field, st)
        path, kw = source.find(paths) if source else (None, None)
        if path is not None:
            use(used, path, kw)
        if pos is not MISSING and path is not None:
            errors.append(err('multiple_argument_values', kw, fname))
        elif pos is not MISSING or path is not None:
            try:
                put(field, run(field['schema'], kw if path is not None else pos, fst))
                count += 1
            except Omitted:
                raise Skip from None
            except Bad as e:
                errors += prefix(e.errors, *([index] if path is None else path if by_loc else [fname]))
        else:
            try:
                has, v = default_of(field['schema'], fst)
                if has:
                    put(field, v)
                else:
                    errors.append(err('missing', value, *(paths[0] if by_loc else [fname])))
            except Omitted:
                pass
            except Bad as e:
                errors += prefix(e.errors, fname)
    for i in range(position, len(args or ())):
        errors.append(err('unexpected_positional_argument', args[i], i))
    behaviour = config_flag(schema, st, 'extra_behavior', 'extra_fields_behavior', 'ignore')
    for k, v in (kwargs or {}).items():
        if not isinstance(k, str):
            errors.append(err('invalid_key', k, loc_item(k)))
        elif k not in used:
            if behaviour == 'forbid':
                errors.append(err('unexpected_keyword_argument', v, loc_item(k)))
            elif behaviour == 'allow':
                if 'extras_schema' in schema:
                    try:
                        data[''.join(k)] = run(schema['extras_schema'], v, st)
                    except Omitted:
                        raise Skip from None
                    except Bad as e:
                        errors += prefix(e.errors, loc_item(k))
                else:
                    data[''.join(k)] = v
    if errors:
        raise Bad(errors)
    if st.track is not None:
        st.track.count(count)
    return data, tuple(init_only) if schema.get('collect_init_only') else None


@node('dataclass')
def run_dataclass(schema: dict, value: Any, st: St) -> Any:
    st = st.but(config=schema.get('config') or {})
    cls = mk(schema['cls'])
    inner = value
    if st.mode == 'python':
        origin = mk(schema['generic_origin']) if 'generic_origin' in schema else None
        force = False
        instance = isinstance(value, cls)
        if not instance and origin is not None and isinstance(value, origin):
            instance = force = True
        if instance:
            if not force and not revalidates(schema, value, cls):
                return value
            try:
                inner = {f: getattr(value, f) for f in schema['fields']}
            except AttributeError:
                raise Skip from None
        elif st.is_strict(schema) and st.call_mode == 'python':
            raise bad('dataclass_exact_type', value, class_name=schema.get('cls_name') or cls.__name__)
        else:
            st.floor(STRICT)
    else:
        st.floor(STRICT)
    data, init_only = run(schema['schema'], inner, st)
    obj = cls.__new__(cls)
    for k, v in data.items():
        if schema.get('slots'):
            try:
                object.__setattr__(obj, k, v)
            except AttributeError:
                raise Skip from None  # an extra item which the class has no slot for
        else:
            obj.__dict__[k] = v
    post_init(obj, '__post_init__' if schema.get('post_init') else None, init_only or (), value)
    return obj


# ------------------------------------------------------------------------------------------------------ generation
FIELD_NAMES = ['a', 'b', 'c', 'foo', 'd']
ALIASES: list[Any] = [
    'A', 'B', 'x', 'b', ['x', 'y'], ['x', 0], ['x', -1], ['a', 'b'], ['A', 1, 'z'], [['x'], ['A']], [['x', 'y'], ['x', 0]],
    [['b', -2], ['a', 'z'], ['A']], [['A'], ['x', 1]], 'a.b', ['x', 'y', 'z'],
]


def field_spec(s, mode: str, depth: int, sub: Any, **kw) -> dict:
    schema = sub(s, mode, depth)
    if chance(s, 1, 3):
        schema = specs.default_spec(s, schema, mode, specs.value_for)
    out = {'schema': schema, **kw}
    if chance(s, 2, 5):
        out['validation_alias'] = pick(s, ALIASES)
    return out


def lookup_config(s) -> dict:
    c: dict = {}
    k = s.draw(8)
    if k == 1:
        c['loc_by_alias'] = False
    if k in (2, 5):
        c['validate_by_name'] = True
    if k in (3, 5):
        c['validate_by_alias'] = pick(s, [True, False]) if 'validate_by_name' in c else True
    if k == 4:
        c['extra_fields_behavior'] = pick(s, ['allow', 'forbid', 'ignore'])
    if k == 6:
        c['strict'] = True
    if k == 7:
        c['validate_default'] = True
    return c


def extra_spec(s, out: dict, keys: bool, mode: str) -> None:
    if chance(s, 1, 2):
        out['extra_behavior'] = pick(s, ['forbid', 'allow', 'ignore'])
        if out['extra_behavior'] == 'allow':
            if chance(s, 1, 2):
                out['extras_schema'] = specs.leaf_spec(s)
                if mode != 'strings' and chance(s, 1, 3):
                    out['extras_schema'] = {'type': 'list', 'items_schema': out['extras_schema']}
            if keys and chance(s, 1, 3):
                out['extras_keys_schema'] = pick(s, [{'type': 'str', 'max_length': 2}, {'type': 'str', 'to_upper': True}])


def no_omit(schema: dict) -> dict:
    if schema['type'] == 'default' and schema.get('on_error') == 'omit':
        return {k: v for k, v in schema.items() if k != 'on_error'}
    return schema


def names_for(s) -> list[str]:
    n = s.draw(5)
    return FIELD_NAMES[:n] if s.draw(3) else [FIELD_NAMES[(i * 2) % 5] for i in range(n)]


def typed_dict_spec(s, mode: str, depth: int, sub: Any) -> dict:
    out: dict = {'type': 'typed-dict', 'fields': {}}
    c = lookup_config(s)
    if c:
        out['config'] = c
    if chance(s, 1, 4):
        out['total'] = False
    extra_spec(s, out, False, mode)
    for n in names_for(s):
        f = field_spec(s, mode, depth - 1, sub, type='typed-dict-field')
        if chance(s, 1, 4):
            f['required'] = bool(s.draw(2))
        if f.get('required', out.get('total', True)):
            f['schema'] = no_omit(f['schema'])
        if f['schema']['type'] == 'default' and f.get('required') and ('default' in f['schema'] or 'default_factory' in f['schema']):
            del f['required']
        out['fields'][n] = f
    if chance(s, 1, 10):
        out['strict'] = bool(s.draw(2))
    return out


def model_fields_spec(s, mode: str, depth: int, sub: Any) -> dict:
    out: dict = {'type': 'model-fields', 'fields': {n: field_spec(s, mode, depth - 1, sub, type='model-field') for n in names_for(s)}}
    extra_spec(s, out, True, mode)
    if chance(s, 1, 2):
        out['model_name'] = pick(s, ['M0', 'Other'])
    if mode == 'python' and chance(s, 2, 5):
        out['from_attributes'] = True
    if chance(s, 1, 12):
        out['strict'] = bool(s.draw(2))
    return out


def model_spec(s, mode: str, depth: int, sub: Any) -> dict:
    out: dict = {'type': 'model', 'cls': X('class', pick(s, ['M0', 'M1', 'M2']))}
    if chance(s, 1, 6):
        out['root_model'] = True
        out['schema'] = sub(s, mode, depth - 1)
    else:
        out['schema'] = model_fields_spec(s, mode, depth, sub)
    c = lookup_config(s)
    if chance(s, 1, 8):
        c['revalidate_instances'] = pick(s, ['always', 'never', 'subclass-instances'])
    if c:
        out['config'] = c
    if chance(s, 1, 3):
        out['revalidate_instances'] = pick(s, ['always', 'subclass-instances', 'never'])
    if chance(s, 1, 6):
        out['post_init'] = pick(s, ['post_note', 'post_fail'])
    if chance(s, 1, 8):
        out['generic_origin'] = X('class', pick(s, ['M3', 'M0']))
    return out


def dataclass_spec(s, mode: str, depth: int, sub: Any) -> dict:
    cls = pick(s, ['D0', 'D1', 'D2', 'D3'])
    names = list(lib.DC_FIELDS[cls])
    fields = []
    for n in names:
        f = field_spec(s, mode, depth - 1, sub, type='dataclass-field')
        f['schema'] = no_omit(f['schema'])
        f['name'] = n
        if chance(s, 1, 2):
            f['kw_only'] = bool(s.draw(3) == 2)
        k = s.draw(8)
        if k == 7:
            f['init'] = False
        elif k == 6 and cls == 'D3':
            f['init_only'] = True
        fields.append(f)
    inner: dict = {'type': 'dataclass-args', 'dataclass_name': pick(s, [cls, 'Named']), 'fields': fields}
    extra_spec(s, inner, False, mode)
    out: dict = {'type': 'dataclass', 'cls': X('class', cls), 'schema': inner, 'fields': [f['name'] for f in fields if not f.get('init_only')]}
    if cls == 'D2':
        out['slots'] = True
    if cls == 'D3':
        if any(f.get('init_only') for f in fields):
            inner['collect_init_only'] = True
        out['post_init'] = bool(s.draw(2)) or 'collect_init_only' in inner
    c = lookup_config(s)
    if chance(s, 1, 10):
        c['revalidate_instances'] = pick(s, ['always', 'never', 'subclass-instances'])
    if c:
        out['config'] = c
    if chance(s, 1, 3):
        out['revalidate_instances'] = pick(s, ['always', 'subclass-instances', 'never'])
    if chance(s, 1, 10):
        out['strict'] = bool(s.draw(2))
    if chance(s, 1, 8):
        out['cls_name'] = 'Shown'
    if chance(s, 1, 10):
        out['generic_origin'] = X('class', pick(s, ['D0', 'D3']))
    return out


def object_spec(s, mode: str, depth: int) -> dict:
    """A tree with typed dicts, models and dataclasses among the containers."""
    k = s.draw(9)
    if depth <= 0 or k < 2:
        return specs.container_spec(s, mode, min(2, max(0, depth)))
    if k < 4:
        return typed_dict_spec(s, mode, depth, object_spec)
    if k < 6:
        return model_spec(s, mode, depth, object_spec)
    if k < 8:
        return dataclass_spec(s, mode, depth, object_spec)
    sub = object_spec(s, mode, depth - 1)
    return pick(s, [{'type': 'list', 'items_schema': sub}, {'type': 'nullable', 'schema': sub},
                    {'type': 'dict', 'values_schema': sub}, {'type': 'tuple', 'items_schema': [sub], 'variadic_item_index': 0}])


# values: a dict with each field put where one of its paths leads
def insert(d: Any, path: list, v: Any, mode: str) -> bool:
    key, rest = path[0], path[1:]
    if isinstance(d, dict):
        if mode != 'python' and not isinstance(key, str):
            return False
        if not rest:
            d[key] = v
            return True
        if key not in d:
            d[key] = {} if isinstance(rest[0], str) else []
        return insert(d[key], rest, v, mode)
    if isinstance(d, list) and isinstance(key, int):
        need = key + 1 if key >= 0 else -key
        while len(d) < need:
            d.append({} if rest else None)
        if not rest:
            d[key] = v
            return True
        if not isinstance(d[key], (dict, list)):
            d[key] = {} if isinstance(rest[0], str) else []
        return insert(d[key], rest, v, mode)
    return False


def fields_value(s, fields: list[tuple[str, dict]], mode: str, noise: int, extras: dict | None = None) -> dict:
    d: dict = {}
    for name, f in fields:
        if chance(s, 1, 6 if noise else 20):
            continue
        paths = alias_paths(f['validation_alias']) if 'validation_alias' in f else []
        k = s.draw(8)
        v = specs.value_for(s, f['schema'], mode, noise)
        if paths and k < 5:
            targets = [pick(s, paths)]
        elif paths and k == 5:
            targets = [pick(s, paths), [name]]
        elif paths and k == 6:
            targets = paths
        else:
            targets = [[name]]
        for t in targets:
            if mode == 'strings' and not all(isinstance(x, str) for x in t):
                continue
            insert(d, t, v, mode)
            if len(targets) > 1:
                v = specs.value_for(s, f['schema'], mode, noise)
    while extras and chance(s, 1, 2):
        d[pick(s, ['x', 'B', 'new', 'zz'])] = specs.value_for(s, extras, mode, noise)
    while noise and chance(s, 1, 4):
        k = pick(s, ['a', 'b', 'x', 'A', 'B', 'new', 'zz', ''])
        if mode == 'python' and s.draw(10) == 9:
            k = pick(s, [1, None, 2.5, (1, 2), b'a'])
        d[k] = specs.small_str(s) if mode == 'strings' else lib_value(s, mode)
    return d


def lib_value(s, mode: str) -> Any:
    return specs.JSON_ANY.do(s) if mode == 'json' else pick(s, [1, 'a', None, [1], {'a': 1}, '5'])


def as_attrs(s, d: dict) -> Any:
    if not all(isinstance(k, str) for k in d):
        return d
    out = {k: as_attrs(s, v) if isinstance(v, dict) and s.draw(2) else v for k, v in d.items()}
    return X('attrs', out) if s.draw(5) else X('battrs', out)


def wrap_mapping(s, d: dict, attrs: bool) -> Any:
    k = s.draw(14)
    if attrs and k < 7:
        a = as_attrs(s, d)
        if k == 6:
            return (a, {kk: vv for kk, vv in d.items() if isinstance(kk, str) and s.draw(2)})
        return a
    if k == 13:
        return X('mapping', d)
    if k == 12:
        return X('dict', d)
    if k == 11 and all(isinstance(x, str) for x in d):
        return X('inst', 'M3', d)
    if k == 10 and attrs:
        return X('odict', d)
    return d


def make_typed_dict(s, spec, mode, noise):
    d = fields_value(s, list(spec['fields'].items()), mode, noise, spec.get('extras_schema'))
    return wrap_mapping(s, d, False) if mode == 'python' and noise else d


def make_model(s, spec, mode, noise):
    inner = spec['schema']
    if spec.get('root_model'):
        v = specs.value_for(s, inner, mode, noise)
        if mode == 'python' and chance(s, 1, 4):
            v = X('inst', pick(s, ['M0', 'M1', 'M2', 'M3']), {'root': v})
        return v
    d = fields_value(s, list(inner['fields'].items()), mode, noise, inner.get('extras_schema'))
    if mode != 'python':
        return d
    if chance(s, 1, 4) and all(isinstance(k, str) for k in d):
        fields = {k: v for k, v in d.items() if k in inner['fields'] or s.draw(2)}
        extra = {k: v for k, v in d.items() if k not in fields}
        k = s.draw(3)
        return X('inst', pick(s, ['M0', 'M1', 'M2', 'M3']), fields, [x for x in d if s.draw(2)] if k else None,
                 extra if extra or s.draw(2) else None)
    return wrap_mapping(s, d, bool(inner.get('from_attributes'))) if noise else d


def make_dataclass(s, spec, mode, noise):
    fields = spec['schema']['fields']
    d = fields_value(s, [(f['name'], f) for f in fields if noise == 0 or f.get('init', True) or s.draw(3) == 2], mode, noise)
    if mode != 'python':
        return d
    k = s.draw(8)
    if k == 7:
        cls = pick(s, ['D0', 'D1', 'D2', 'D3'])
        return X('dci', cls, {n: d.get(n, 1) for n in lib.DC_FIELDS[cls]})
    if k >= 4:
        args: list = []
        for f in fields:
            if f.get('kw_only', True) or f['name'] not in d or not f.get('init', True):
                continue
            v = d[f['name']]
            if s.draw(4):
                del d[f['name']]
            args.append(v)
        if chance(s, 1, 6):
            args.append(lib_value(s, mode))
        if all(isinstance(x, str) for x in d):
            return X('ak', args, d if d or s.draw(2) else None)
    return d


specs.VALUE_MAKERS.update({'typed-dict': make_typed_dict, 'model': make_model, 'dataclass': make_dataclass})


# ------------------------------------------------------------------------------------------------------ assignment
def assign(schema: dict, obj: Any, name: str, value: Any, st: St) -> None:
    """validate_assignment on an instance: changes `obj`, or raises Bad and leaves it alone."""
    st = st.but(config=schema.get('config') or {})
    if schema.get('frozen'):
        raise bad('frozen_instance', value)
    no_such = bad('no_such_attribute', value, name, attribute=name)
    if schema['type'] == 'model' and schema.get('root_model'):
        if name != 'root':
            raise no_such
        obj.__dict__['root'] = run(schema['schema'], value, st.but(field_name='root'))
        return
    inner = schema['schema']
    fields = dict(inner['fields'].items() if schema['type'] == 'model' else ((f['name'], f) for f in inner['fields']))
    behaviour = config_flag(inner, st, 'extra_behavior', 'extra_fields_behavior', 'ignore')
    if schema['type'] == 'model':
        data = {**obj.__dict__, **{k: v for k, v in (obj.__pydantic_extra__ or {}).items() if k not in obj.__dict__}}
    else:
        try:
            data = {f: getattr(obj, f) for f in schema['fields']}
        except AttributeError:
            raise Skip from None
    data.pop(name, None)
    st = st.but(data=data)
    if name in fields:
        if fields[name].get('frozen'):
            raise bad('frozen_field', value, name)
        try:
            value = run(fields[name]['schema'], value, st.but(field_name=name))
        except Bad as e:
            raise Bad(prefix(e.errors, name)) from None
        except Omitted:
            raise Skip from None
    elif behaviour != 'allow':
        raise no_such
    elif 'extras_schema' in inner:
        if schema['type'] != 'model':
            raise Skip  # is not consulted for dataclasses
        try:
            value = run(inner['extras_schema'], value, st)
        except Bad as e:
            raise Bad(prefix(e.errors, name)) from None
        except Omitted:
            raise Skip from None
    if schema['type'] == 'model':
        if any(k in fields and k not in obj.__dict__ for k in obj.__pydantic_extra__ or {}):
            raise Skip  # an omitted field whose name an extra item has
        shadowed = {k: v for k, v in (obj.__pydantic_extra__ or {}).items() if k in obj.__dict__}
        if name not in fields:
            obj.__pydantic_extra__[name] = value
        else:
            obj.__dict__[name] = value
        if behaviour == 'allow':  # fields come in the order of the schema, whatever else there is is extra
            old = dict(obj.__dict__)
            extra = {k: v for k, v in old.items() if k not in fields}
            obj.__dict__.clear()
            obj.__dict__.update({k: old[k] for k in fields if k in old})
            others = {k: v for k, v in obj.__pydantic_extra__.items() if k not in shadowed}
            obj.__pydantic_extra__ = {**extra, **others, **shadowed}
        obj.__pydantic_fields_set__.add(name)
    elif schema.get('slots'):
        try:
            object.__setattr__(obj, name, value)
        except AttributeError:
            raise Skip from None
    else:
        obj.__dict__[name] = value
