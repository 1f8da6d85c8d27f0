"""C15: what a ValidationError reports."""

from __future__ import annotations

import copy
import json
import os
import pickle

import gen as st
import lib
import specs
from core import Test, ensure
from lib import Skip, X, mk, same
from models import compose, errors, fields, functions, unions
from models.compose import St
from pydantic_core import PydanticCustomError, PydanticKnownError, SchemaError, SchemaValidator, ValidationError, to_json
from pydantic_core._pydantic_core import list_all_errors
from specs import chance, pick

RULE = 'non-trivial: the report has an error with a context, or more than one error'
ASSUMPTIONS = [
    'the table of types, messages and context fields is the published one, transcribed',
    'to_json(errors()) says how the inputs and contexts look in JSON (C09 to C11 decide that)',
    'PYDANTIC_ERRORS_INCLUDE_URL is unset',
]


def prefix():
    try:
        import pydantic

        return 'https://errors.pydantic.dev/' + '.'.join(pydantic.__version__.split('.')[:2]) + '/v/'
    except ImportError:
        return 'https://errors.pydantic.dev/latest/v/'


PREFIX = prefix()
URLS = not os.environ.get('PYDANTIC_ERRORS_OMIT_URL')


# ----------------------------------------------------------------------------------------------- reports made by hand
WORDS = ['', 'a', 'e', 'x y', '{error}', '{tag}', '{expected_tags}', '{expected_plural}', '{', '}', '{{a}}', '{a}', '{b}', 'é', '\U0001f600', 'a.b', '{max_length}', "it's", '\n', '\x00', '\x7f', '{pattern}', '{a', 'b}', 'ok{b}']
KEYS = ['a', 'b', 'c', 'error', 'error_type', 'message_template', 'type', 'loc', '', 'a b', 'é', '{a}', 'b}']
NUMBERS = [0, 1, -1, 2, 10, 2**31 - 1, 2**31, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64 - 1, 2**64, 2**70, 10**30, 0.0, 1.0, -0.5, 1e300, 1e-7, 1e16, 123456789.123, float('inf'), float('-inf'), True, False]


def text(s):
    return ''.join(pick(s, WORDS) for _ in range(1 + s.draw(3)))


def any_value(s):
    return pick(s, [text, lambda s: pick(s, NUMBERS), lambda s: None, lambda s: [1, 'a'], lambda s: {'a': (1, 2)}, lambda s: b'ab', lambda s: X('opaque'), lambda s: X('d', 2020, 1, 2), lambda s: X('dec', '1.50'), lambda s: text(s) * s.draw(12), lambda s: X('err', text(s)), lambda s: X('unprintable')])(s)


def field_value(s, kind):
    if chance(s, 1, 12):
        return any_value(s)
    if kind == 'str':
        return text(s)
    if kind == 'number':
        return pick(s, NUMBERS) if chance(s, 3, 4) else text(s)
    if kind == 'object':
        return X('err', text(s)) if chance(s, 1, 2) else any_value(s)
    if kind == 'i32':
        return pick(s, [0, 1, -3600, 2**31 - 1, -(2**31), 2**31, -(2**31) - 1, 60])
    if kind == 'size?' and chance(s, 1, 3):
        return None
    return pick(s, [0, 1, 2, 3, 11, 2**63, 2**64 - 1, 2**64, -1, 1, 1, True])


def ctx_of(s, n=3):
    return {pick(s, KEYS): any_value(s) for _ in range(s.draw(n))}


def template(s):
    return ''.join(pick(s, WORDS) if chance(s, 1, 2) else '{' + pick(s, KEYS) + '}' for _ in range(1 + s.draw(4)))


def line(s):
    out = {}
    if chance(s, 1, 4):
        out['type'] = X('custom', pick(s, ['my_type', 'greater_than', '', 'a b', text(s)]), template(s), ctx_of(s, 4) if chance(s, 3, 4) else None)
    else:
        out['type'] = pick(s, sorted(errors.TYPES)) if not chance(s, 1, 40) else pick(s, ['nonsense', '', 'custom_error', 'Missing'])
        spec = errors.TYPES.get(out['type'], (0, 0, {}))[2]
        ctx = {k: field_value(s, t) for k, t in spec.items() if not chance(s, 1, 40)}
        if chance(s, 1, 6):
            ctx.update(ctx_of(s))
        if ctx or chance(s, 1, 8):
            out['ctx'] = ctx
    if chance(s, 4, 5):
        loc = tuple(pick(s, ['a', 'b.c', '.', 0, 1, -1, 'x`y', '', 2**63 - 1, 'é', '3', 'a-b', True]) if not chance(s, 1, 20) else pick(s, [2**63, None, 1.5, (1, 2)]) for _ in range(s.draw(4)))
        out['loc'] = list(loc) if chance(s, 1, 3) else loc
    if chance(s, 9, 10):
        out['input'] = any_value(s)
    if chance(s, 1, 10):
        out['msg'] = 'not this'
    return out


def flags(s):
    out = {k: bool(s.draw(2)) for k in ('include_url', 'include_context', 'include_input') if chance(s, 1, 2)}
    if chance(s, 1, 3):
        out['indent'] = s.draw(5)
    return out


def made_case(s):
    return {
        'title': pick(s, ['T', 'My Model', '', 'list[int]', 'é', text(s)]),
        'lines': [line(s) for _ in range(pick(s, [1, 1, 1, 2, 3, 0]))],
        'mode': pick(s, ['python', 'json', 'string', None]),
        'hide': pick(s, [None, False, True]),
        'flags': flags(s),
    }


def custom(type_, template_, ctx=None):
    return PydanticCustomError(type_, template_, *([] if ctx is None else [mk(ctx)]))


class Unprintable:
    def __repr__(self):
        raise RuntimeError('no repr')

    def __eq__(self, other):
        return type(other) is Unprintable

    __hash__ = None


class OddError(ValueError):
    def __eq__(self, other):
        return type(other) is type(self) and self.args == other.args

    __hash__ = None


lib.BUILDERS.update({'custom': custom, 'unprintable': Unprintable, 'err': OddError})
lib.BUILDERS.setdefault('unprintable', Unprintable)


def known(line_):
    """The line as the model has it, or None if it can't be made."""
    e = {'loc': tuple(compose.loc_item(mk(x)) for x in line_.get('loc', ())), 'input': mk(line_.get('input')), 'ctx': None}
    t = line_['type']
    if isinstance(t, X):
        e['type'], e['template'], ctx = (*t.args, None)[:3]
        e['ctx'] = None if ctx is None else mk(ctx)
        return e
    if t not in errors.TYPES:
        return None
    e['type'] = t
    if 'ctx' in line_:
        e['ctx'] = mk(line_['ctx'])
    for k, kind in errors.TYPES[t][2].items():
        if e['ctx'] is None or k not in e['ctx'] or not errors.fits(kind, e['ctx'][k]):
            return None
    return e


def unprintable(x):
    return 'unprintable' in repr(x)


def check_made(case, rec):
    mode = case['mode'] or 'python'
    hide = bool(case['hide'])
    if any(unprintable(x.get('ctx')) or unprintable(x['type']) for x in case['lines']):
        raise Skip
    want = [known(x) for x in case['lines']]
    args = [[build_line(x) for x in case['lines']]]
    if case['mode'] is not None or case['hide'] is not None:
        args.append(mode)
    if case['hide'] is not None:
        args.append(hide)
    try:
        e = ValidationError.from_exception_data(case['title'], *args)
    except (TypeError, KeyError) as exc:
        ensure(any(w is None for w in want), 'from_exception_data refuses errors it should take', exc)
        rec.label('refused')
        return
    ensure(all(w is not None for w in want), 'from_exception_data takes an error it should refuse')
    check_report(e, case['title'], want, mode, hide, case['flags'], rec)


def build_line(x):
    out = {k: mk(v) for k, v in x.items()}
    if isinstance(x['type'], str) and 'ctx' not in x:
        out.pop('ctx', None)
    return out


def strip(details, flags_):
    for flag, key in (('include_url', 'url'), ('include_context', 'ctx'), ('include_input', 'input')):
        if flags_.get(flag) is False:
            details = [{k: v for k, v in d.items() if k != key} for d in details]
    return details


def to_text(x):
    try:
        return 'ok', json.loads(to_json(x, serialize_unknown=True))
    except Exception as exc:
        return 'error', type(exc)


def json_of(e, **kw):
    try:
        return 'ok', e.json(**kw)
    except Exception as exc:
        return 'error', type(exc), str(exc)


def check_report(e, title, want, mode, hide, flags_, rec):
    """`want`: the errors as the model has them."""
    ensure(e.title == title, 'title', e.title, title)
    ensure(e.error_count() == len(want), 'error_count', e.error_count(), len(want))
    for w in want:
        rec.label(w['type'] if 'template' not in w else 'custom')
    if len(want) > 1 or any(w['ctx'] for w in want):
        rec.nontrivial()
    full = [errors.details(w, mode, PREFIX) for w in want]
    got = e.errors()
    ensure(same(ordered(got), ordered(full)), 'errors() differs', got, full)
    for g in got:
        if 'ctx' in g:
            g['ctx'].clear()
            g.clear()
    no_indent = {k: v for k, v in flags_.items() if k != 'indent'}
    ensure(same(ordered(e.errors(**no_indent)), ordered(strip(full, flags_))), 'errors() differs with flags', flags_, e.errors(**no_indent))
    # JSON
    reference = to_text(e.errors(**no_indent))
    plain = json_of(e, **no_indent)
    ensure(plain[0] == reference[0], 'json() and to_json(errors()) disagree', plain, reference)
    if plain[0] == 'ok':
        ensure(same(json.loads(plain[1]), reference[1]), 'json() says something else than errors()', plain[1], reference[1])
        indented = json_of(e, **{**no_indent, 'indent': flags_.get('indent', 2)})
        ensure(indented[0] == 'ok' and same(json.loads(indented[1]), reference[1]), 'json() with indent says something else', indented)
        if flags_.get('indent') and any(want):
            ensure(indented[1].startswith('[\n' + ' ' * flags_['indent'] + '{\n'), 'indentation', indented[1][:50])
        if 'indent' not in flags_:
            ensure('\n' not in plain[1], 'line breaks without indent')
    else:
        rec.label('json fails')
    # text
    text_ = errors.report(title, want, mode, PREFIX if URLS else None, hide)
    ensure(str(e) == text_, 'str() differs', str(e), text_)
    ensure(repr(e) == text_, 'repr() differs', repr(e), text_)
    # there and back again
    again = ValidationError.from_exception_data(e.title, [
        {**d, 'type': PydanticCustomError(w['type'], w['template'], w['ctx'])} if 'template' in w else d for d, w in zip(e.errors(), want)
    ], mode, hide)
    alike(again, full, text_, 'from_exception_data(errors())')
    for how, f in (('pickle', lambda x: pickle.loads(pickle.dumps(x))), ('copy', copy.copy), ('deepcopy', copy.deepcopy)):
        if how != 'copy':
            try:
                same_text = errors.input_text(f([(w['input'], w['ctx']) for w in want])) == errors.input_text([(w['input'], w['ctx']) for w in want])
            except Exception:
                rec.label('input without ' + how)
                continue
        try:
            other = f(e)
        except Exception as exc:
            ensure(False, f'{how} fails', repr(exc))
        ensure(type(other) is type(e), f'{how} gives another type', type(other))
        if how != 'copy' and (not same_text or 'nan' in text_):
            continue
        alike(other, full, text_, how)
        if plain[0] == 'ok':
            ensure(other.title == title and json_of(other, **no_indent) == plain, f'{how} changes json()', json_of(other), plain)


def by_value(details):
    def plain(v):
        return (type(v), v.args) if isinstance(v, Exception) else v

    return [{k: {n: plain(x) for n, x in sorted(v.items())} if k == 'ctx' else v for k, v in d.items()} for d in details]


def ordered(details):
    """The order of the keys of a context isn't said."""
    return [{k: dict(sorted(v.items())) if k == 'ctx' else v for k, v in d.items()} for d in details]


def alike(other, full, text_, how):
    ensure(same(by_value(other.errors()), by_value(full)), f'{how} changes errors()', other.errors(), full)
    ensure(str(other) == text_, f'{how} changes the text', str(other), text_)


# ------------------------------------------------------------------------------------- reports of failed validations
def tree(s, mode, depth):
    k = s.draw(8)
    if depth <= 0 or k == 0:
        return functions.leaf(s, mode, 0)
    if k == 1:
        return unions.union_spec(s, mode, depth, tree)
    if k == 2:
        return functions.wrapper_spec(s, mode, depth, tree)
    if k < 6:
        return pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, mode, depth, tree)
    sub = tree(s, mode, depth - 1)
    kind = pick(s, ['list', 'dict', 'tuple', 'set', 'nullable', 'chain', 'custom'])
    if kind == 'dict':
        return {'type': 'dict', 'keys_schema': functions.leaf(s, mode, 0), 'values_schema': sub, **specs.bounds(s)}
    if kind == 'tuple':
        return {'type': 'tuple', 'items_schema': [sub, functions.leaf(s, mode, 0)]}
    if kind == 'nullable':
        return {'type': 'nullable', 'schema': sub}
    if kind == 'chain':
        return {'type': 'chain', 'steps': [sub, functions.leaf(s, mode, 0)]}
    if kind == 'custom':
        if chance(s, 1, 2):
            return {'type': 'custom-error', 'schema': sub, 'custom_error_type': 'greater_than', 'custom_error_context': {'gt': pick(s, NUMBERS)}}
        return {'type': 'custom-error', 'schema': sub, 'custom_error_type': 'mine', 'custom_error_message': template(s), **({'custom_error_context': {pick(s, KEYS): text(s), 'n': pick(s, NUMBERS)}} if chance(s, 1, 2) else {})}
    return {'type': kind, 'items_schema': sub, **specs.bounds(s)}


def raised_case(mode):
    def go(s):
        spec = tree(s, mode, 1 + s.draw(2))
        value = specs.value_for(s, spec, mode, pick(s, [4, 8, 20]))
        if chance(s, 1, 3):
            value = specs.wrong_value(s, mode)
        case = {'schema': spec, 'value': value, 'mode': mode, 'flags': flags(s)}
        config = {}
        if chance(s, 1, 4):
            config['title'] = pick(s, ['My Title', '', 'é.b'])
        if chance(s, 1, 3):
            config['hide_input_in_errors'] = bool(s.draw(2))
        if config:
            case['config'] = config
        return case

    return st.Strategy(go)


CUSTOM = {'my_type': 'say {x}', 'my_bare': 'say', 'many': '{n} of them'}


def templates(schema, out):
    if isinstance(schema, dict):
        if 'custom_error_message' in schema:
            out.append((schema['custom_error_type'], schema['custom_error_message'], schema.get('custom_error_context')))
        for v in schema.values():
            templates(v, out)
    elif isinstance(schema, (list, tuple)):
        for v in schema:
            templates(v, out)
    return out


def as_model(d, custom_errors, loc=True):
    """An error as reported, as the model has it; what it is based on is checked in passing."""
    e = {'type': d['type'], 'loc': d['loc'], 'input': d['input'], 'ctx': d.get('ctx')}
    if d['type'] in errors.TYPES and 'url' in d:
        fields_ = errors.TYPES[d['type']][2]
        ctx = d.get('ctx') or {}
        ensure(set(fields_) <= set(ctx), 'the context lacks a field', d)
        for k, kind in fields_.items():
            ensure(errors.fits(kind, ctx[k]), 'a field of the context has another type', d)
        return e
    found = [t for n, t, c in custom_errors if n == d['type'] and same(c, d.get('ctx')) and errors.message({'type': n, 'template': t, 'ctx': c}, 'python') == d['msg']]
    if not found and d['type'] in CUSTOM:
        found = [CUSTOM[d['type']]]
    ensure(found, 'an error of unknown type or message', d, custom_errors)
    e['template'] = found[0]
    return e


def check_raised(case, rec):
    spec, mode = case['schema'], case['mode']
    text_ = None
    if mode == 'json':
        text_ = json.dumps(case['value'])
    if any(f"X('{k}'" in repr(case['value']) for k in ('gen', 'iter', 'badgen')):
        raise Skip  # writing the report would use them up
    value = mk(case['value'])
    config = case.get('config')
    try:
        v = SchemaValidator(compose.build(spec), config)
    except SchemaError:
        raise Skip from None
    lib.LOG.clear()
    try:
        if mode == 'json':
            v.validate_json(text_)
        elif mode == 'strings':
            v.validate_strings(value)
        else:
            v.validate_python(value)
        raise Skip
    except ValidationError as exc:
        e = exc
    except Skip:
        raise
    except Exception:
        raise Skip from None
    got = e.errors()
    custom_errors = templates(spec, [])
    want = [as_model(d, custom_errors) for d in got]
    mode_ = 'string' if mode == 'strings' else mode
    title = v.title
    if config and 'title' in config:
        ensure(title == config['title'], 'the title is another one', title)
    elif spec['type'] in ('model', 'dataclass') and not (spec.get('config') or {}).get('title'):
        ensure(title == spec.get('cls_name', mk(spec['cls']).__name__), 'the title is another one', title)
    check_report(e, title, want, mode_, bool(config and config.get('hide_input_in_errors')), case['flags'], rec)


# ------------------------------------------------------------------------------------------- errors raised by functions
def thrown_case(s):
    out = {
        'what': pick(s, [X('custom', pick(s, ['my_type', 'missing', text(s)]), template(s), ctx_of(s, 4)), X('custom', 'my_type', template(s)), X('err', text(s)), X('assertion', text(s)), X('known', *known_args(s))]),
        'depth': s.draw(3),
        'where': pick(s, ['before', 'after', 'plain', 'wrap']),
        'mode': pick(s, ['python', 'json']),
        'cause': bool(s.draw(2)),
        'flags': flags(s),
        'n': 1 + s.draw(3),
    }
    return out


def known_args(s):
    t = pick(s, sorted(errors.TYPES))
    ctx = {k: field_value(s, kind) for k, kind in errors.TYPES[t][2].items()}
    if chance(s, 1, 5):
        ctx.update(ctx_of(s))
    return (t, ctx) if ctx else (t,)


lib.BUILDERS['assertion'] = lambda t: AssertionError(t)


def make_error(x):
    if x.kind == 'known':
        return PydanticKnownError(*mk(list(x.args)))
    return mk(x)


def check_thrown(case, rec):
    x = case['what']
    if unprintable(x):
        raise Skip
    if x.kind == 'known':
        w = known({'type': x.args[0], **({'ctx': x.args[1]} if len(x.args) > 1 else {})})
        try:
            exc = make_error(x)
        except TypeError:
            ensure(w is None, 'PydanticKnownError refuses a context it should take')
            return
        ensure(w is not None, 'PydanticKnownError takes a context it should refuse')
        ensure(exc.message_template == errors.TYPES[x.args[0]][0], 'message_template', exc.message_template)
    else:
        exc = make_error(x)
        w = {'type': {'err': 'value_error', 'assertion': 'assertion_error'}.get(x.kind), 'ctx': {'error': exc}}
        if x.kind == 'custom':
            w = known({'type': x})
            ensure(exc.message_template == x.args[1], 'message_template', exc.message_template)
    rec.label(x.kind)
    if x.kind in ('known', 'custom'):
        text_ = errors.message(w, 'python')
        ctx = w['ctx'] or None if x.kind == 'known' else w['ctx']
        ensure(exc.type == w['type'], 'type', exc.type)
        ensure(same(exc.context, ctx), 'context', exc.context, ctx)
        ensure(exc.message() == text_ == str(exc), 'message()', exc.message(), str(exc), text_)
        ensure(repr(exc) == f'{text_} [type={w["type"]}, context={ctx}]', 'repr', repr(exc))
        other = copy.copy(exc)
        ensure(type(other) is type(exc) and repr(other) == repr(exc), 'copy', repr(other))
        rec.nontrivial()

    def fail(*_):
        raise exc

    schema = {'type': 'any'}
    f = {'type': 'no-info', 'function': fail}
    schema = {
        'plain': {'type': 'function-plain', 'function': f},
        'before': {'type': 'function-before', 'function': f, 'schema': schema},
        'after': {'type': 'function-after', 'function': f, 'schema': schema},
        'wrap': {'type': 'function-wrap', 'function': f, 'schema': schema},
    }[case['where']]
    value, loc = [1] * case['n'], ()
    schema = {'type': 'list', 'items_schema': schema}
    for _ in range(case['depth']):
        schema, value, loc = {'type': 'dict', 'values_schema': schema}, {'a.b': value}, ('a.b', *loc)
    v = SchemaValidator(schema, {'validation_error_cause': case['cause']})
    try:
        v.validate_json(json.dumps(value)) if case['mode'] == 'json' else v.validate_python(value)
    except ValidationError as e:
        want = [{**w, 'loc': (*loc, i), 'input': 1} for i in range(case['n'])]
        if x.kind == 'known' and not w['ctx']:
            want = [{**w_, 'ctx': None} for w_ in want]
        check_report(e, v.title, want, case['mode'], False, case['flags'], rec)
        causes = list(e.__cause__.exceptions) if e.__cause__ is not None else []
        if case['cause'] and x.kind in ('err', 'assertion'):
            ensure(type(e.__cause__).__name__ in ('ExceptionGroup', 'BaseExceptionGroup') and causes == [exc] * case['n'] and all(c is exc for c in causes), 'the cause differs', e.__cause__)
            notes = [f'\nPydantic: cause of loc: {errors.loc_text(w_["loc"])}' for w_ in want]
            ensure(exc.__notes__ == notes, 'the notes differ', exc.__notes__, notes)
            rec.label('cause')
        elif x.kind != 'known' or w['type'] not in ('value_error', 'assertion_error'):
            ensure(e.__cause__ is None, 'a cause of nothing', e.__cause__)
    else:
        ensure(False, 'the error gets lost')


# ------------------------------------------------------------------------------------------------------- the table
def check_table(case, rec):
    found = {e['type']: e for e in list_all_errors()}
    t = case['type']
    ensure(set(found) == set(errors.TYPES), 'the set of error types differs', set(found) ^ set(errors.TYPES))
    python, other, fields_ = errors.TYPES[t]
    d = found[t]
    ensure(d['message_template_python'] == python and d.get('message_template_json') == other, 'a message differs', d)
    ensure(set(d['example_context'] or {}) == set(fields_), 'context fields differ', d)
    rec.nontrivial()


TESTS = [
    Test('made', lambda: st.Strategy(made_case), check_made, 60000, 900000),
    Test('python', lambda: raised_case('python'), check_raised, 30000, 400000),
    Test('json', lambda: raised_case('json'), check_raised, 20000, 300000),
    Test('strings', lambda: raised_case('strings'), check_raised, 10000, 150000),
    Test('thrown', lambda: st.Strategy(thrown_case), check_thrown, 40000, 500000),
    Test('table', lambda: st.Strategy(lambda s: {'type': pick(s, sorted(errors.TYPES))}), check_table, 200, 200),
]
