PBT = 'property-based testing against a reference model'
NOTE = 'Random structured search with shrinking against an independent oracle; finds counterexamples, proves nothing. Trusts CPython and the generators\' coverage.'

prop('C01', 'Scalar conversion table',
     'For every input, each scalar validator (int, float, str, bytes, bool, decimal, complex, uuid, none) accepts exactly the values the documented strict/lax conversion table accepts in python, JSON and strings mode, returns exactly the converted value and type (no silent rounding, truncation, wrap-around or sign change), and otherwise raises one ValidationError with the documented error type. The effective strictness is the runtime argument, else the schema\'s, else the config\'s.',
     ['inputs', 'configurations'], 'every input object or JSON/str text x scalar schema x options x three strictness sources x three input modes',
     'The set of texts, numbers and foreign objects is unbounded and the interesting ones (huge ints, signs after zeros, half-way floats, subclasses, enum members, broken unicode) combine with three modes and three strictness sources; a test table samples a few of each.',
     ['src/input/input_python.rs', 'src/input/input_json.rs', 'src/input/input_string.rs', 'src/input/shared.rs', 'src/validators/int.rs', 'src/validators/float.rs', 'src/validators/decimal.rs', 'src/validators/uuid.rs', 'src/validators/complex.rs', 'src/validators/config.rs'],
     [('str_as_int / clean_int_str', 'src/input/shared.rs'), ('Input::validate_* for Bound<PyAny>', 'src/input/input_python.rs'), ('Input::validate_* for JsonValue', 'src/input/input_json.rs')], PBT, NOTE)

prop('C02', 'Constraints on scalars decide exactly',
     'A constrained int, float, decimal, str or bytes schema returns its value unchanged (apart from the declared str stripping/casing) exactly when the value satisfies every declared constraint, including bounds at, one step around and far beyond machine limits. Otherwise it raises one error naming the first broken constraint in the fixed order, whose context carries the declared bound.',
     ['inputs', 'configurations'], 'every value x every combination of bounds, multiple_of, digits, lengths, pattern, casing, from schema or config',
     'Bounds interact with representation limits (i64/f64/decimal context precision, Unicode case and whitespace tables) for values no test lists.',
     ['src/validators/int.rs', 'src/validators/float.rs', 'src/validators/decimal.rs', 'src/validators/string.rs', 'src/validators/bytes.rs', 'src/input/return_enums.rs'],
     [('ConstrainedIntValidator / Int ordering and modulo', 'src/validators/int.rs, src/input/return_enums.rs'), ('StrConstrainedValidator', 'src/validators/string.rs'), ('DecimalValidator digit counting', 'src/validators/decimal.rs')], PBT, NOTE)

prop('C03', 'Dates, times and durations mean what they say',
     'Every text, number or object accepted as a date, time, datetime or timedelta yields exactly the moment or span its ISO 8601 text or unix timestamp denotes (second/millisecond watershed, negative and fractional values, offsets, leap years, precision option), and every other input is rejected with the documented error. Constraints compare instants when both sides are aware, and what the serializer writes for a value denotes that same value.',
     ['inputs', 'configurations'], 'every text of the date/time grammars and near misses, every int/float timestamp, every stdlib object, every bound/timezone constraint',
     'Calendar, offset, fraction and watershed arithmetic has boundaries everywhere; tests sample a few dozen texts and timestamps.',
     ['src/input/datetime.rs', 'src/validators/date.rs', 'src/validators/datetime.rs', 'src/validators/time.rs', 'src/validators/timedelta.rs', 'src/serializers/config.rs', 'src/serializers/type_serializers/datetime_etc.rs', 'src/serializers/type_serializers/timedelta.rs'],
     [('float_as_datetime, float_as_time, float_as_duration', 'src/input/datetime.rs'), ('date_from_datetime / datetime_from_date', 'src/validators/date.rs, src/validators/datetime.rs'), ('TzInfo', 'src/input/datetime.rs')], PBT, NOTE)

prop('C04', 'Validating a container is validating its items',
     'For every list, tuple (fixed or variadic), set, frozenset, dict, nullable, default or generator schema, nested to any depth, and every input: the result holds exactly the validated items in input order (deduplicated for sets), and is produced exactly when every item is valid and the length bounds hold. Otherwise the errors are exactly those of the items, prefixed with the index or key (and "[key]") where they arose, or the length, missing-item, unhashable-item or iteration error of the container itself. Item errors are never lost, duplicated or moved, bounds count items of the output, and defaults and omissions apply item by item; a generator validates lazily, one item per step.',
     ['inputs', 'configurations'], 'every nesting of container schemas x options (bounds, fail_fast, strict, defaults, on_error) x every input (including iterators, broken iterators, mappings) x python/JSON/strings',
     'The rules combine: nesting, defaults, omission, fail-fast, bounds and lookahead for variadic tuples interact, and each test only fixes one combination.',
     ['src/validators/list.rs', 'src/validators/tuple.rs', 'src/validators/set.rs', 'src/validators/frozenset.rs', 'src/validators/dict.rs', 'src/validators/generator.rs', 'src/validators/nullable.rs', 'src/validators/with_default.rs', 'src/input/return_enums.rs'],
     [('validate_iter_to_vec / validate_iter_to_set / MaxLengthCheck', 'src/input/return_enums.rs'), ('TupleValidator::validate_tuple_variable', 'src/validators/tuple.rs'), ('ValidatorIterator', 'src/validators/generator.rs'), ('WithDefaultValidator', 'src/validators/with_default.rs')], PBT, NOTE)

prop('C06', 'Validation ends in a value or a ValidationError; strict refuses more',
     'For every schema (any composition) and every input, validating Python objects, JSON text (any bytes) or strings ends in a value, in a ValidationError with at least one error, or in the exception raised by a function or method of the user: never in a panic, an abort, a hang or another exception, also for objects whose special methods raise or return nonsense and for containers that change while they are validated or serialized. The outcome is the same for every repetition, for str, bytes and bytearray forms of the same JSON, and isinstance_python agrees with it. Whatever a schema accepts in strict mode it accepts in lax mode, with the same result (unions aside), and lax is the default.',
     ['inputs', 'configurations', 'faults'], 'every composition of all schema types x config x any Python object (incl. misbehaving ones), any bytes as JSON, any strings; mutation during iteration',
     'Panics, aborts and foreign exceptions hide in combinations of schema, input form and broken protocol methods that nobody writes down as a test; the guarantee is about all of them.',
     ['src/validators', 'src/input', 'src/serializers', 'src/lookup_key.rs', 'src/tools.rs'],
     [('Validator::validate implementations', 'src/validators'), ('Input implementations', 'src/input'), ('SchemaValidator::isinstance_python', 'src/validators/mod.rs')],
     'property-based testing and fuzzing: totality of the outcome, metamorphic relations (repetition, strict within lax, str = bytes)', NOTE)

prop('C07', 'What is serialized validates back to the same value',
     'For every schema built from types whose JSON form determines the value (scalars, containers, typed dicts, models, dataclasses, root models, unions of distinct types, enums, literals; aliases the same on both sides; bytes, float and duration formats set alike on both sides) and every value x of it: validate_json(to_json(x)), validate_python(to_python(x)) and validate_python(to_python(x, mode="json")), with by_alias and round_trip, are equal to x in value and type, down to every nested item. With exclude_unset or exclude_defaults the validator restores exactly what was left out (and the fields-set with it), and serializing the restored value gives the same text again.',
     ['inputs', 'configurations'], 'every composition of round-trippable types x every value of it x config (bytes mode, inf/nan mode) x three forms of dump x exclude_unset/exclude_defaults',
     'Serializers and validators are separate hand-written code for each type and format; only a value that goes through both shows a disagreement, and the values (offsets, negative durations, big ints, odd floats, non-ASCII, extras, aliases) are unbounded.',
     ['src/serializers', 'src/validators', 'src/input/input_json.rs', 'src/input/input_python.rs'],
     [('to_json / to_python', 'src/serializers/mod.rs'), ('validate_json / validate_python', 'src/validators/mod.rs'), ('ValBytesMode / BytesMode', 'src/validators/config.rs, src/serializers/config.rs')],
     'property-based testing: round trip serializer -> validator', NOTE)

prop('C08', 'The three ways of serializing agree and write what the type says',
     'For every schema and value, to_python, to_python(mode="json") and to_json produce exactly what a reference reading of the schema gives: python mode keeps each value, JSON mode turns it into the documented JSON form of its type (datetimes ISO, durations ISO/float, bytes utf8/base64/hex, infinities and NaN as null/constants/strings, keys as strings), and to_json writes precisely the JSON text of to_python(mode="json") (also when indented, and also for the free functions to_json / to_jsonable_python). Values of types without a schema are serialized by their run-time type; models, dataclasses, enums, generators and objects unknown to it (fallback, serialize_unknown) alike in all three.',
     ['inputs', 'configurations'], 'every schema tree x value x config x mode; every Python object for inferred serialization; every key type',
     'Each serializer implements the same meaning three or four times (to_python, json_key, serde_serialize, and again for inferred types); tests compare them on a few values per type, so a path that drifts is invisible.',
     ['src/serializers/infer.rs', 'src/serializers/config.rs', 'src/serializers/type_serializers', 'src/serializers/fields.rs', 'src/serializers/ser.rs', 'src/serializers/ob_type.rs', 'src/serializers/mod.rs'],
     [('infer_to_python_known / infer_serialize_known / infer_json_key_known', 'src/serializers/infer.rs'), ('TypeSerializer implementations', 'src/serializers/type_serializers'), ('PythonSerializer / to_json_bytes', 'src/serializers/ser.rs, src/serializers/mod.rs')],
     'property-based testing: differential between the three modes, and against a reference model', NOTE)

prop('C09', 'include and exclude select exactly what they name',
     'For every schema, value and include/exclude argument (sets or dicts of field names, keys and indexes, negative indexes, "__all__", nested to any depth), combined with exclusions in the schema, the output holds exactly the items that are selected: an item is left out iff it is excluded or not included at its level, nested selections apply within their item only, exclude wins over include, "__all__" applies to every item of its level, and nothing that the schema excludes ever comes back. The same holds for inferred values, through wrappers and function serializers, and alike in python and JSON output.',
     ['inputs', 'configurations'], 'every nesting of containers/models/dataclasses/typed dicts x every include/exclude tree x schema-level include/exclude x mode',
     'Selection is a recursive merge of three sources (include, exclude, schema) with special keys and index normalisation, re-implemented at each container; combinations grow exponentially and leaking an excluded field is a security problem.',
     ['src/serializers/filter.rs', 'src/serializers/fields.rs', 'src/serializers/infer.rs', 'src/serializers/type_serializers'],
     [('SchemaFilter / AnyFilter / FilterLogic', 'src/serializers/filter.rs'), ('GeneralFieldsSerializer', 'src/serializers/fields.rs')], PBT, NOTE)

prop('C10', 'Fields are written under the right name, exactly when they should be',
     'For every model, dataclass and typed dict value: the output has each field exactly once, in schema order, then computed fields, then extras as documented, under its serialization alias iff by_alias is in force (argument over config), and a field is missing iff its exclude flag, include/exclude, exclude_unset (not in fields_set), exclude_defaults (equal to the default), exclude_none (None), or round_trip (computed fields) says so. Subclass instances are written by the schema\'s fields only. Python and JSON output agree.',
     ['inputs', 'configurations'], 'every field list (alias, exclude, default, computed fields, extras) x instance x by_alias sources x exclusion flags x mode',
     'Flags combine freely (2^7 and config) and the code is written once for Python output and once for JSON; tests set one flag at a time.',
     ['src/serializers/fields.rs', 'src/serializers/computed_fields.rs', 'src/serializers/type_serializers/model.rs', 'src/serializers/type_serializers/dataclass.rs', 'src/serializers/type_serializers/typed_dict.rs'],
     [('GeneralFieldsSerializer::main_to_python / main_serde_serialize', 'src/serializers/fields.rs'), ('ComputedFields', 'src/serializers/computed_fields.rs'), ('ModelSerializer', 'src/serializers/type_serializers/model.rs')], PBT, NOTE)

prop('C23', 'Serializing never changes silently what does not fit the schema',
     'For every schema and every value, whether or not it fits: serialization by a union uses the first member that fits (strictly, then leniently; by tag for tagged unions), and a warning (or PydanticSerializationError with warnings="error") is given exactly when some value does not fit its schema; a value that does not fit is written as its run-time type says. The warnings option never changes the output, and warnings=False/"none" gives none.',
     ['inputs', 'configurations'], 'every schema with unions x values that fit some, all or no members x mode x warnings option',
     'Which member fits is decided by every serializer\'s own check in three code paths; the cross product of types and values is where one of them forgets to check.',
     ['src/serializers/type_serializers/union.rs', 'src/serializers/extra.rs', 'src/serializers/type_serializers/simple.rs', 'src/serializers/type_serializers/model.rs', 'src/serializers/type_serializers/timedelta.rs'],
     [('union_serialize / tagged_union_serialize', 'src/serializers/type_serializers/union.rs'), ('CollectWarnings::on_fallback_py / on_fallback_ser', 'src/serializers/extra.rs')], PBT, NOTE)

prop('C24', 'Function serializers are called and their results used as declared',
     'For every placement of plain and wrap serializer functions (with or without info, field serializers, return schemas, when_used always/unless-none/json/json-unless-none, format and to-string serializers): the function is called exactly once per value in exactly the modes when_used names, with the model or value and an info that carries the mode and options of the call; its result is serialized by the return schema or its run-time type; the wrap handler serializes as the inner schema would, with index or key selection passed on; otherwise the inner schema applies. for an index or key that is not selected the handler raises PydanticOmit, and errors raised in functions are reported, never swallowed.',
     ['inputs', 'configurations'], 'every placement of function serializers in a schema tree x when_used x mode x value x options',
     'The call is implemented separately for Python, JSON and key output, and when_used changes which code runs; tests place one function in one position.',
     ['src/serializers/type_serializers/function.rs', 'src/serializers/type_serializers/format.rs', 'src/serializers/infer.rs'],
     [('function_type_serializer! / SerializationInfo / SerializationCallable', 'src/serializers/type_serializers/function.rs'), ('FormatSerializer / ToStringSerializer / WhenUsed', 'src/serializers/type_serializers/format.rs')], PBT, NOTE)

prop('C11', 'Fields are found where the schema says and objects are built from exactly them',
     'For every typed dict, model or dataclass schema (aliases: names, paths, alternatives; by_alias/by_name from argument or config; required, default, frozen, init, init_only, kw_only fields; extra ignore/allow/forbid with their schemas; from_attributes; post_init; root models) and every input (dicts, mappings, objects, (object, dict) pairs, ArgsKwargs, instances, JSON objects, string maps): each field gets its value from the first of its lookup paths that exists, or its default; the resulting object has exactly those values, extras and fields_set; and otherwise the errors are exactly the problems of each field (located by alias or name as configured), of missing fields, of extras and keys, in order, with nothing lost.',
     ['inputs', 'configurations'], 'every field list x lookup config x extra behaviour x input kind x python/JSON/strings x nesting',
     'Lookup by alias paths, by name and by attributes, extras, defaults and error locations are coded separately for typed dicts, models and dataclasses, and again for Python, JSON and string input; options interact and tests fix one at a time.',
     ['src/validators/typed_dict.rs', 'src/validators/model_fields.rs', 'src/validators/model.rs', 'src/validators/dataclass.rs', 'src/lookup_key.rs', 'src/input/input_python.rs'],
     [('LookupKey / LookupPath', 'src/lookup_key.rs'), ('TypedDictValidator::validate', 'src/validators/typed_dict.rs'), ('ModelFieldsValidator::validate', 'src/validators/model_fields.rs'), ('DataclassArgsValidator / DataclassValidator', 'src/validators/dataclass.rs')], PBT, NOTE)

prop('C12', 'Assignment and instances: an object only ever holds validated state',
     'Over every history of validate_assignment calls on a model, root model or dataclass instance: a successful assignment sets exactly the named field (or extra) to the validated value, adds it to fields_set, and leaves every other attribute as it was; a failed one raises the errors of validating that value (frozen, unknown, or invalid field, at the location of the field) and leaves the instance unchanged. Validating an instance returns it as it is, or builds an equal but independent one, as revalidate_instances says, and a custom __init__ is called and its instance used exactly as declared.',
     ['inputs', 'histories', 'configurations'], 'every schema x sequence of assignments, good and bad x instances of the class, subclasses, other classes',
     'Assignment is a second implementation of field validation which also has to keep dict, extra and fields_set in step over a history; tests make one assignment.',
     ['src/validators/model.rs', 'src/validators/model_fields.rs', 'src/validators/dataclass.rs', 'src/validators/mod.rs'],
     [('ModelValidator::validate_assignment / validate_init / call_validator', 'src/validators/model.rs'), ('ModelFieldsValidator::validate_assignment', 'src/validators/model_fields.rs'), ('DataclassValidator::validate_assignment', 'src/validators/dataclass.rs')],
     'stateful property-based testing against a reference model', NOTE)

prop('C13', 'A union picks the best choice, and says why none fits',
     'For every union and every input: if no choice accepts the input, the errors are exactly those of each choice in order, each located under the choice\'s label (or the declared custom error alone). A left-to-right union gives the result of the first choice that accepts; a smart union gives the first exact match, else the choice that sets most fields, else the one that matches most exactly (exact type, then strict, then lax), the first of equals; nested unions, models, dataclasses and containers take part with the exactness of their parts. A tagged union finds the tag by the discriminator (name, path, alternatives, function) and the result is that of the choice with this tag, its errors located under the tag, or union_tag_not_found / union_tag_invalid.',
     ['inputs', 'configurations'], 'every union of scalars, containers, models, dataclasses, typed dicts, unions x mode x labels x custom errors x discriminators and tags x every input x python/JSON/strings',
     'Which member wins depends on bookkeeping (exactness, fields_set_count) that every validator and every input conversion must do right; a forgotten or leaked mark changes the result only for particular pairs of choices.',
     ['src/validators/union.rs', 'src/common/union.rs', 'src/validators/validation_state.rs', 'src/validators/literal.rs', 'src/input/return_enums.rs'],
     [('UnionValidator::validate_smart / validate_left_to_right', 'src/validators/union.rs'), ('TaggedUnionValidator', 'src/validators/union.rs'), ('floor_exactness / add_fields_set', 'src/validators/validation_state.rs'), ('ValidationMatch', 'src/input/return_enums.rs')], PBT, NOTE)

prop('C14', 'Functions are called with what is promised and their answers are used',
     'For every schema tree with before, after, wrap and plain functions, chains, default factories, custom-error, lax-or-strict and json-or-python: each function is called exactly as often and in the order its place in the schema says, with the value at that point and the info of that point (mode, context, config, name of the field, and the fields validated before it). Its answer is what validation goes on with; a ValueError, AssertionError, PydanticCustomError, PydanticKnownError or ValidationError it raises becomes that error at that place (for the input of the function), PydanticOmit and PydanticUseDefault leave the value out or use the default, and any other exception comes out unchanged. A handler gives what the inner schema gives for the value passed, any number of times, with the outer location in front of its errors; on assignment functions around a model or its fields are called by the same rules.',
     ['inputs', 'configurations', 'histories'], 'every tree of function schemas among containers, models, dataclasses, typed dicts and unions x functions that return, change, raise each kind of error, call the handler 0, 1 or 2 times x every input x three modes, and assignments',
     'Functions may be anywhere and what they see (info.data, field_name, mode, strictness through the handler) is threaded through every validator by mutable state; tests look at one function in one place.',
     ['src/validators/function.rs', 'src/validators/generator.rs', 'src/validators/chain.rs', 'src/validators/custom_error.rs', 'src/validators/lax_or_strict.rs', 'src/validators/json_or_python.rs', 'src/validators/with_default.rs', 'src/validators/validation_state.rs'],
     [('Function{Before,After,Wrap,Plain}Validator, convert_err, ValidationInfo', 'src/validators/function.rs'), ('InternalValidator', 'src/validators/generator.rs'), ('rebind_extra', 'src/validators/validation_state.rs'), ('ChainValidator, CustomErrorValidator, LaxOrStrictValidator, JsonOrPython', 'src/validators/chain.rs, src/validators/custom_error.rs, src/validators/lax_or_strict.rs, src/validators/json_or_python.rs')], PBT, NOTE)

prop('C26', 'A literal or enum accepts exactly its members',
     'A literal schema gives the expected value that is the input (same type first: 1, True and 1.0 are told apart when they are all expected; otherwise one that is equal), an enum schema the very member whose value the input is. In lax mode what converts to the value of an int, str or float enum, and what the class itself or its missing hook finds, counts too; in strict python mode only members do. Everything else is a literal_error or enum error listing the members; an instance of the class is given back as it is, and a member is written as its value and read back as itself.',
     ['inputs', 'configurations'], 'literals of bools, ints beyond 64 bits, floats, strings, bytes, None, enum members, unhashable values x look-alikes of other types x strict/lax x python/JSON/strings/keys; enum classes with int, str, float, bytes, mixed, nested, aliased and missing values',
     'Look-ups go through several tables (bool, i64, str, hash, equality) whose precedence only shows for values that are equal without being the same, or outside of machine ranges.',
     ['src/validators/literal.rs', 'src/validators/enum_.rs', 'src/serializers/type_serializers/enum_.rs', 'src/serializers/type_serializers/literal.rs'],
     [('LiteralLookup', 'src/validators/literal.rs'), ('EnumValidator', 'src/validators/enum_.rs')], PBT, NOTE)

prop('C27', 'Nothing is written to but the result, and results share no state',
     'Building validators and serializers, validating, and serializing change no schema, config, context, include or exclude, and no value that is given to them (other than using up iterators and the instance of an assignment), at any depth. What validation makes anew (every container with item schemas, every model or dataclass instance, every copy of an unhashable default) shares no mutable object with the input, with a default, or with another result, so that nothing done to a result, an error report or a dump changes what later calls give; a dump shares no list, dict or set with its value. A failed assignment leaves the instance as it was; a successful one changes nothing but it.',
     ['inputs', 'histories'], 'schemas over all types with mutable defaults, contexts and filters x inputs with shared mutable parts and instances (with extras and private attributes, revalidated or not) x validation twice with the first result spoilt in between x dumps x assignments',
     'Sharing does not show in the result of a single call; it takes the comparison of identities across input, defaults and results, after changes, over every kind of container and instance.',
     ['src/validators/with_default.rs', 'src/validators/model.rs', 'src/validators/dataclass.rs', 'src/validators/model_fields.rs', 'src/serializers/filter.rs', 'src/serializers/infer.rs'],
     [('DefaultType::DefaultCallable / copy_default', 'src/validators/with_default.rs'), ('ModelValidator::validate (revalidation), validate_assignment', 'src/validators/model.rs'), ('DataclassValidator::validate_assignment', 'src/validators/dataclass.rs'), ('merge_all_value', 'src/serializers/filter.rs')], PBT, NOTE)

prop('C16', 'Arguments are bound as Python binds them and the function gets the result',
     'For every signature (positional-only, positional-or-keyword, keyword-only, variadic, optional, aliased parameters) an arguments or arguments-v3 schema accepts exactly the calls (positional and keyword arguments, a list or object of JSON, or for v3 a mapping from parameter names) that Python would accept for such a function and whose arguments fit their schemas; the result is the validated positional and keyword arguments that bind each value to the same parameter, with defaults filled in. Otherwise every problem is reported, each at its place: missing arguments by kind, several values for one, unexpected positional or keyword arguments, keys that are no strings, and errors of values at the index, or the alias or name, they came from. A call schema calls its function exactly once, with those arguments, only if all were valid, validates what it returns at `return`, and lets its exceptions out unchanged.',
     ['inputs', 'configurations'], 'every signature of up to six parameters plus variadics (uniform or unpacked typed dict) x aliases, defaults, by_name/by_alias, extra behaviour, loc_by_alias x every split of values between positions and names, with missing, repeated, extra ones x python and JSON',
     'Which value goes to which parameter depends on the combination of kinds, defaults, aliases and what was given; tests hold a table of a few dozen signatures.',
     ['src/validators/arguments.rs', 'src/validators/arguments_v3.rs', 'src/validators/call.rs', 'src/input/input_python.rs', 'src/input/input_json.rs', 'src/argument_markers.rs'],
     [('ArgumentsValidator', 'src/validators/arguments.rs'), ('ArgumentsV3Validator', 'src/validators/arguments_v3.rs'), ('CallValidator', 'src/validators/call.rs')], PBT, NOTE)

prop('C21', 'What a call gives depends on the schema and the call, not on history',
     'A validator, serializer or iterator that is used again and again, in any order, interleaved with others or from several threads, gives each call the result, errors, warnings and function calls that a new one gives it; errors and exceptions in between leave nothing behind. Copies, pickles and what __reduce__ tells to build behave like the original. A model or dataclass whose class has its validator and serializer already (prebuilt) validates, assigns and serializes as if they were built anew, unless the class has another schema in this place (a parametrization or a parent); strings read from JSON do not depend on what was cached, at any setting of cache_strings.',
     ['histories', 'inputs', 'schedules'], 'up to two generated schemas of all types (with definitions) x sequences of up to 12 calls of 11 kinds (three modes, partial, assignment, defaults, dumps, inference) on live objects and copies x prebuilt classes, subclasses and generics x interleaved iterators x four threads',
     'A test calls a new validator once or twice; state that is kept between calls (caches, lookups filled on first use, guards, prebuilt parts, iterators) shows in later calls of other kinds only.',
     ['src/validators/mod.rs', 'src/serializers/mod.rs', 'src/common/prebuilt.rs', 'src/validators/prebuilt.rs', 'src/serializers/prebuilt.rs', 'src/validators/generator.rs', 'src/definitions.rs'],
     [('SchemaValidator::py_new, __reduce__', 'src/validators/mod.rs'), ('SchemaSerializer::py_new, __reduce__, to_json', 'src/serializers/mod.rs'), ('get_prebuilt', 'src/common/prebuilt.rs'), ('ValidatorIterator, InternalValidator', 'src/validators/generator.rs')], PBT, NOTE)

prop('C25', 'What is held can be collected, what is used is neither leaked nor freed',
     'Every object a schema is made of (classes, enums, functions, defaults, expected values, error contexts, at any place and in definitions) that leads to the validator or serializer made of it is freed with it by the garbage collector when nothing else refers to them; so are the handlers, infos and iterators that user functions have kept. While anything of such a cycle is in use, all it leads to stays whole and works, through any collection. Calls, failing or not, and the making of validators and serializers leave the reference counts of everything reachable from the schema, and the number of objects alive, as they were once their results are dropped.',
     ['inputs', 'histories'], 'generated schemas of all types (with definitions) in which any or every place for a Python object leads to the validator, the serializer or both x calls of 8 kinds with values that lead there too x functions that keep what they are given x one object kept in use x up to 750 repeated calls',
     'Each type has its own hand-written list of what the collector has to visit; nothing fails when an entry is missing or counted twice, memory just stays or is freed too early.',
     ['src/py_gc.rs', 'src/definitions.rs', 'src/validators/mod.rs', 'src/serializers/mod.rs', 'src/validators/function.rs', 'src/validators/generator.rs', 'src/serializers/type_serializers/function.rs'],
     [('PyGcTraverse, impl_py_gc_traverse', 'src/py_gc.rs'), ('SchemaValidator::__traverse__', 'src/validators/mod.rs'), ('SchemaSerializer::__traverse__', 'src/serializers/mod.rs'), ('ValidatorCallable, ValidationInfo', 'src/validators/function.rs'), ('SerializationCallable, SerializationInfo', 'src/serializers/type_serializers/function.rs'), ('InternalValidator', 'src/validators/generator.rs')], PBT, NOTE)

prop('C22', 'A URL is taken apart faithfully, and its normal form is itself',
     'For every text put together from a scheme, hosts with or without credentials and ports, a path, a query and a fragment, Url and MultiHostUrl (as classes and as schemas, in every input mode) give exactly these parts in normal form (case, percent-encoding, punycode, dot segments, default ports); every host of a MultiHostUrl is what a Url with this host alone has. Parsing the text, or the unicode form, of a URL gives an equal URL with the same parts, and so do copies, pickles, build() from its parts and conversion between the two classes; equality, order and hash agree with the text. Texts without a scheme, with an empty or wrong host (any of several), or a wrong port are url_parsing errors; strict mode refuses exactly the texts that would have to be corrected and otherwise gives the same URL; max_length, allowed_schemes, host_required, default_host, default_port and default_path act on what was parsed, in this order, and never change a URL instance that was given.',
     ['inputs', 'configurations'], 'texts from components with every kind of character, ports and credentials, 1 to 4 hosts, broken in one place, or mutated freely x options x str, bytes, JSON, Url and MultiHostUrl inputs',
     'Hosts are split and put together again by hand around a parser that sees one host at a time; the mistakes need credentials, punycode, several hosts, empty parts or defaults at once.',
     ['src/url.rs', 'src/validators/url.rs', 'src/serializers/type_serializers/url.rs'],
     [('PyUrl, PyMultiHostUrl, unicode_url, UrlHostParts', 'src/url.rs'), ('parse_multihost_url, check_sub_defaults, parse_url', 'src/validators/url.rs')], PBT, NOTE)

prop('C17', 'Definitions mean what they name; cycles and deep values end in an error',
     'A schema with definitions validates, from Python, JSON and strings, and serializes like the schema with every reference replaced by what it names, including defaults, function calls and locations; a second use of the same validator gives the same again. A value that contains itself gives a recursion_loop error exactly at the place where an object is met again inside of itself by the same definition (shared parts that are no cycles give none), and a value nested beyond the documented limit gives one where the limit is reached; what is within the limit is unaffected. Serialization, by schema or by inference, of a value that contains itself or is too deep raises a circular reference error in JSON modes and never crashes, and writes what is within the limit in full.',
     ['inputs', 'configurations'], 'generated sets of up to three definitions (containers, models, dataclasses, typed dicts, unions, functions, defaults) that refer to each other x values built along the references with shared parts, cycles and depths around every internal limit (16, 235) x three modes',
     'Which references, cycles and depths meet is a matter of whole graphs of schemas and of values; the guard switches representation at 16 levels and is entered and left by many pieces of code.',
     ['src/recursion_guard.rs', 'src/definitions.rs', 'src/validators/definitions.rs', 'src/serializers/type_serializers/definitions.rs', 'src/serializers/infer.rs', 'src/serializers/extra.rs'],
     [('RecursionGuard, RecursionStack', 'src/recursion_guard.rs'), ('DefinitionRefValidator', 'src/validators/definitions.rs'), ('DefinitionRefSerializer', 'src/serializers/type_serializers/definitions.rs'), ('DefinitionsBuilder', 'src/definitions.rs'), ('infer_to_python_known, infer_serialize_known', 'src/serializers/infer.rs')], PBT, NOTE)
prop('C18', 'JSON text is read as RFC 8259 says, whichever way it comes in',
     'from_json, validate_json, the json schema (with or without an inner schema, inside JSON, in strings mode) accept the same texts (str, bytes, bytearray) and give the same values, which are those of the text by RFC 8259 (plus NaN and Infinity unless allow_inf_nan is off): exact integers of any size, correctly rounded floats, decoded escapes, the last of repeated keys, at any setting of cache_strings. Every other text is refused with the same json_invalid message and a position inside the text, and other types with json_type; too deep nesting is an error, not a crash. With allow_partial a text cut anywhere gives what was complete before the cut (and the cut string with trailing-strings), and a complete text gives the same as without.',
     ['inputs', 'configurations'], 'random documents with every spelling of strings, numbers and whitespace, mutated texts, every truncation, broken UTF-8, nesting around and far beyond the limit x cache and partial settings x all ways in',
     'There are two readers (to Python objects and to JSON values) and several entry points with their own settings; they differ only on particular texts.',
     ['src/lib.rs', 'src/validators/json.rs', 'src/validators/mod.rs', 'src/input/input_json.rs', 'src/input/return_enums.rs'],
     [('from_json', 'src/lib.rs'), ('JsonValidator, validate_json_bytes', 'src/validators/json.rs'), ('SchemaValidator::validate_json', 'src/validators/mod.rs')], PBT, NOTE)

prop('C19', 'Partial validation forgives the end of the input, and nothing else',
     'With allow_partial, an error in the last item of a list, set, frozenset or dict, or in the last key of a typed dict if its field is not required, leaves this item out, at every depth where each container is the last item of the one around it and only containers, unions, nullables, and defaults are passed on the way; validation of every other part, and of anything inside of tuples, models, dataclasses, functions and their handlers, is the same as without. JSON text that ends early counts as what was complete, with or without the string that was cut (trailing-strings); what one attempt (a union choice, a step of a chain, a default) was allowed is not changed by another; bounds on lengths apply to what is left.',
     ['inputs', 'configurations'], 'trees of containers, typed dicts, unions, models, wrappers and functions x values with a faulty end, or somewhere else x texts cut anywhere x the three settings x python/JSON/strings',
     'Permission is a flag in the validation state which each validator passes on, clears or restores; a mistake shows only if something else is validated afterwards.',
     ['src/validators/typed_dict.rs', 'src/validators/dict.rs', 'src/input/return_enums.rs', 'src/validators/validation_state.rs', 'src/validators/generator.rs', 'src/validators/union.rs'],
     [('enumerate_last_partial, allow_partial', 'src/validators/validation_state.rs'), ('validate_iter_to_vec / validate_iter_to_set', 'src/input/return_enums.rs'), ('partial_last_key', 'src/validators/typed_dict.rs')], PBT, NOTE)

prop('C15', 'A validation error reports what went wrong, the same in every form',
     'For every ValidationError, raised by validation or made by from_exception_data, errors(), json() (with any indent), str(), error_count() and title say the same: for each error its type, location, input, context and the published message of that type (of the kind of input: Python or not) with every placeholder replaced once by the value of the context; include_url, include_context, include_input and hide_input leave out exactly what they name. Copies, pickles and from_exception_data of what errors() says are the same report again, and reading a report never changes it. PydanticCustomError and PydanticKnownError render the same messages, refuse contexts that lack a field or have one of another type, and validation_error_cause gives the exceptions behind the errors, in order, each with its location.',
     ['inputs', 'configurations'], 'every error type x contexts with texts that look like placeholders, numbers beyond machine ranges and floats, extra and missing keys x locations with dots, numbers and unicode x inputs that are long, unprintable or unserializable x flags; errors of generated schemas in three modes',
     'The same facts are rendered by four different pieces of code (dict, JSON, text, reduce), and the messages depend on a table of a hundred templates and on values that users control.',
     ['src/errors/validation_exception.rs', 'src/errors/types.rs', 'src/errors/value_exception.rs', 'src/errors/location.rs', 'src/errors/line_error.rs', 'src/tools.rs'],
     [('ValidationError, PyLineError', 'src/errors/validation_exception.rs'), ('ErrorType::render_message / new / py_dict', 'src/errors/types.rs'), ('PydanticCustomError, PydanticKnownError', 'src/errors/value_exception.rs'), ('Location', 'src/errors/location.rs'), ('write_truncated_to_limited_bytes', 'src/tools.rs')], PBT, NOTE)
