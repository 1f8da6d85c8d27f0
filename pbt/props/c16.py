"""C16: arguments are bound as Python binds them, each is validated, and the function is called with the result."""

from __future__ import annotations

import gen as st
import lib
import specs
from core import Test, X, ensure
from lib import SchemaValidator, ValidationError
from models import arguments, compose, functions  # noqa: F401
from models.compose import St, actual, outcome, same_outcome

RULE = 'non-trivial: at least one argument was bound to a parameter, or an error is located at one'
ASSUMPTIONS = [
    'leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)',
    'unspecified and excluded: variadic keyword arguments with the name of a parameter that was given under another name (an alias, or the '
    'mapping of arguments-v3), an argument whose schema omits it',
]


def strategy(mode, spec_fn):
    def go(s):
        spec = spec_fn(s, mode, 1 + s.draw(2), lambda s, m, d: arguments.tree(s, m, d) if s.draw(8) else functions.function_spec(s, m, 1, functions.leaf))
        case = {'schema': spec, 'value': specs.value_for(s, spec, mode, [8, 25, 0][s.draw(3)]), 'mode': mode}
        k = s.draw(12)
        if k == 11:
            case['strict'] = bool(s.draw(2))
        elif k == 10:
            case['by_name'] = True
        elif k == 9:
            case.update(by_name=True, by_alias=False)
        elif k == 8:
            case['config'] = [{'loc_by_alias': False}, {'validate_by_name': True}, {'extra_fields_behavior': 'ignore'}, {'strict': True}][s.draw(4)]
        return case

    return st.Strategy(go)


def logged(f, *args):
    lib.LOG.clear()
    out = f(*args)
    return out, list(lib.LOG)


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    config = case.get('config') or {}
    s = St(mode, case.get('strict'), config, **{k: case.get(k) for k in ('by_name', 'by_alias')})
    value, again = specs.twice(case['value'])
    v = SchemaValidator(compose.build(spec), compose.pc.core_schema.CoreConfig(**config) if config else None)
    murky = compose.MURKY[0]
    want, calls = logged(outcome, spec, value, s)
    clear = murky == compose.MURKY[0]
    if want[0] == 'boom' and not clear:
        raise lib.Skip
    got, got_calls = logged(actual, v, again, s)
    rec.label(spec['type'], want[0])
    if want[0] == 'err':
        rec.nontrivial(any(e['loc'] for e in want[1]))
        rec.label(*{e['type'] for e in want[1]} & {
            'missing_argument', 'missing_keyword_only_argument', 'missing_positional_only_argument', 'unexpected_keyword_argument',
            'unexpected_positional_argument', 'multiple_argument_values', 'invalid_key', 'extra_forbidden'})
    else:
        rec.nontrivial(bool(spec.get('arguments_schema')))
    ensure(same_outcome(got, want), 'the outcome is not the one of binding the arguments', got, want, calls)
    if clear:
        ensure(got_calls == calls, 'the functions were not called with what they are to be called with', got_calls, calls)


# ---------------------------------------------------------------------------- against the binding of Python itself
def python_strategy():
    def go(s):
        params = []
        names = ['a', 'b', 'c', 'd', 'e', 'f']
        optional = False
        for kind, n in (('positional_only', s.draw(3)), ('positional_or_keyword', s.draw(3)), ('keyword_only', s.draw(3))):
            for _ in range(n):
                p = {'name': names.pop(0), 'mode': kind}
                if kind == 'keyword_only':
                    optional = False
                if optional or s.draw(3) == 2:
                    p['default'] = s.draw(3) * 100
                    optional = kind != 'keyword_only'
                params.append(p)
        case = {'params': params, 'var_args': bool(s.draw(2)), 'var_kwargs': bool(s.draw(2)), 'v3': bool(s.draw(2)),
                'args': list(range(s.draw(6))), 'kwargs': {specs.pick(s, ['a', 'b', 'c', 'd', 'e', 'f', 'z', 'args', 'kwargs']): 10 + i for i in range(s.draw(5))}}
        how = s.draw(6)
        if how >= 3:
            case['how'] = ['mapping', 'dict', 'list'][how - 3]
        return case

    return st.Strategy(go)


def function_of(case):
    parts, slash, star = [], False, False
    for p in case['params']:
        if p['mode'] != 'positional_only' and slash is None:
            parts.append('/')
            slash = True
        if p['mode'] == 'keyword_only' and not star:
            parts.append('*args' if case['var_args'] else '*')
            star = True
        if p['mode'] == 'positional_only':
            slash = None
        parts.append(p['name'] + (f'={p["default"]}' if 'default' in p else ''))
    if slash is None:
        parts.append('/')
    if case['var_args'] and not star:
        parts.append('*args')
    if case['var_kwargs']:
        parts.append('**kwargs')
    space: dict = {}
    exec(f'def f({", ".join(parts)}): return dict(locals())', space)
    return space['f']


def schema_of(case):
    def sub(p):
        return {'type': 'default', 'schema': {'type': 'any'}, 'default': p['default']} if 'default' in p else {'type': 'any'}

    params = [{'name': p['name'], 'mode': p['mode'], 'schema': sub(p)} for p in case['params']]
    if not case['v3']:
        out = {'type': 'arguments', 'arguments_schema': params}
        if case['var_args']:
            out['var_args_schema'] = {'type': 'int'}
        if case['var_kwargs']:
            out['var_kwargs_schema'] = {'type': 'int'}
        return out
    if case['var_args']:
        params.insert(sum(p['mode'] != 'keyword_only' for p in params), {'name': 'args', 'mode': 'var_args', 'schema': {'type': 'any'}})
    if case['var_kwargs']:
        params.append({'name': 'kwargs', 'mode': 'var_kwargs_uniform', 'schema': {'type': 'any'}})
    return {'type': 'arguments-v3', 'arguments_schema': params}


def check_python(case, rec):
    f = function_of(case)
    schema = schema_of(case)
    v = SchemaValidator({'type': 'call', 'arguments_schema': schema, 'function': f})
    args, kwargs, how = case['args'], case['kwargs'], case.get('how')
    if how == 'dict' and not case['v3']:
        args, given = [], kwargs
    elif how == 'list' and not case['v3']:
        kwargs, given = {}, list(args)
    elif how == 'mapping' and case['v3']:
        # parameters by name, whatever their kind is
        given = {}
        names = [p['name'] for p in case['params']]
        positional = [p for p in case['params'] if p['mode'] != 'keyword_only']
        for p, x in zip(positional, args):
            given[p['name']] = x
        rest = args[len(positional):]
        if rest:
            if not case['var_args'] or len(args) < len(positional):
                raise lib.Skip
            given['args'] = rest
        extra = {}
        for k, x in kwargs.items():
            if k in [p['name'] for p in positional]:
                raise lib.Skip
            if k in names:
                given[k] = x
            else:
                extra[k] = x
        if extra:
            if not case['var_kwargs']:
                raise lib.Skip
            given['kwargs'] = extra
    else:
        given = lib.pc.ArgsKwargs(tuple(args), kwargs or None)
    try:
        want = f(*args, **kwargs)
    except TypeError as e:
        want = str(e)
    try:
        got = v.validate_python(given)
    except ValidationError as e:
        got = str(e)
    rec.label('v3' if case['v3'] else 'v1', 'accepted' if isinstance(want, dict) else 'refused')
    rec.nontrivial(bool(case['params']) and bool(args or kwargs))
    ensure(isinstance(want, dict) == isinstance(got, dict), 'the call is accepted or not', got, want, given)
    if isinstance(want, dict):
        ensure(got == want and list(got.get('kwargs', ())) == list(want.get('kwargs', ())), 'the parameters of the function', got, want)


TESTS = [
    Test('python', python_strategy, check_python, 60000, 1000000),
    Test('arguments', lambda: strategy('python', arguments.arguments_spec), check, 60000, 2000000),
    Test('arguments-json', lambda: strategy('json', arguments.arguments_spec), check, 30000, 1000000),
    Test('arguments-v3', lambda: strategy('python', arguments.arguments_v3_spec), check, 60000, 2000000),
    Test('arguments-v3-json', lambda: strategy('json', arguments.arguments_v3_spec), check, 30000, 1000000),
    Test('arguments-v3-strings', lambda: strategy('strings', arguments.arguments_v3_spec), check, 8000, 200000),
    Test('call', lambda: strategy('python', arguments.call_spec), check, 30000, 1000000),
    Test('call-json', lambda: strategy('json', arguments.call_spec), check, 16000, 600000),
]
