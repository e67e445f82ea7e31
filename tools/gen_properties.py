"""Writes /verif/properties.jsonl (kept as a script so that the text can be reviewed and diffed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "src/validators/"; S = "src/serializers/"; T = S + "type_serializers/"; I = "src/input/"

p("C01", "Scalar validation accepts exactly the values its type and constraints allow",
  "For bool, int, float, str, bytes, decimal, complex, uuid and none schemas, validate_python, validate_json and validate_strings accept an input if and only if the strict or lax conversion table admits it and every declared constraint (gt, ge, lt, le, multiple_of, min/max_length, pattern, max_digits, decimal_places, allow_inf_nan, version) holds for the converted value. The value returned is exactly the converted value with no loss of precision, at any magnitude, and a rejection is a ValidationError whose type names the failing conversion or the first constraint violated. Values sitting exactly on, one below and one above a bound are decided as ordinary arithmetic decides them.",
  ["inputs", "configurations"], "every (schema with its constraint settings, strict flag, input mode, input value) triple",
  "Bounds interact with conversions, magnitude (i64 against big integers), strictness and input mode; tests pick some pairs, the guarantee is about all of them.",
  [V+"int.rs", V+"float.rs", V+"string.rs", V+"bytes.rs", V+"decimal.rs", V+"bool.rs", V+"complex.rs", V+"uuid.rs", I+"input_python.rs", I+"shared.rs", I+"return_enums.rs", I+"input_json.rs", I+"input_string.rs"],
  [("int bounds", V+"int.rs ConstrainedIntValidator::validate"), ("string constraints", V+"string.rs StrConstrainedValidator::validate"), ("decimal digit counting", V+"decimal.rs DecimalValidator::validate"), ("lax conversions", I+"input_python.rs, "+I+"shared.rs str_as_int/str_as_bool/str_as_float")],
  ["SchemaValidator.validate_python/validate_json/validate_strings return value and ValidationError.errors()"])

p("C02", "Strict acceptance implies lax acceptance, and isinstance agrees with validate",
  "If a validator accepts an input in strict mode it accepts the same input in lax mode and returns an equal value of the same type; passing strict=True at call time means the same as strict set on the schema or the config. isinstance_python(x) returns True exactly when validate_python(x) succeeds and False exactly when it raises ValidationError, under every combination of runtime arguments.",
  ["inputs", "configurations"], "every schema kind (leaves, containers, unions, wrappers), input value, place where strictness is set, and runtime flag",
  "It relates two runs of the same input, over the product of schema kinds and values; the tests check each run's expectation separately for hand-picked pairs.",
  [V+"mod.rs", V+"validation_state.rs", V+"lax_or_strict.rs", I+"input_python.rs", I+"input_json.rs"],
  [("strict resolution", V+"validation_state.rs strict_or; src/build_tools.rs is_strict"), ("isinstance entry point", V+"mod.rs SchemaValidator::isinstance_python"), ("strict/lax branches", I+"input_python.rs validate_*")],
  ["validate_python(strict=...), isinstance_python, validate_json(strict=...)"],
  [("Extra.strict", "runtime strictness override carried through nested validators", V+"validation_state.rs")])

p("C03", "JSON input validates like the same data in Python, whatever the cache setting",
  "For a JSON document, validate_json gives the same outcome (value, types, error types, locations) as parsing the document and validating the result against the same schema under the documented JSON rules (lists for tuples and sets, strings for dates, bytes, UUIDs and decimals, string keys for scalars), in strict and in lax mode. The outcome does not depend on whether the text is str, bytes or bytearray, on the cache_strings setting, or on what was parsed before; validate_strings agrees with validate_json of the same leaves written as strings for lax scalars.",
  ["inputs", "configurations", "histories"], "every JSON-expressible schema, document and cache setting, after any earlier parses",
  "The two input back ends are separate implementations of one trait; only running both over the same space shows that they agree.",
  [I+"input_json.rs", I+"input_python.rs", I+"input_string.rs", I+"input_abstract.rs", V+"mod.rs", "src/tools.rs"],
  [("trait implemented twice", I+"input_abstract.rs Input; impl for JsonValue and for Bound<PyAny>"), ("string cache", V+"validation_state.rs cache_str; "+I+"return_enums.rs EitherString::as_py_string"), ("duplicate keys and lazy lookup", "src/lookup_key.rs LookupKey::json_get")],
  ["validate_json vs validate_python vs validate_strings results"])

p("C04", "The JSON parser accepts exactly JSON and yields its exact value",
  "from_json, and validate_json of an any schema, accept a text exactly when it is a valid JSON document (with inf/NaN as allowed by allow_inf_nan), and then return the same value a conforming parser returns, with integers at full precision, unicode escapes decoded and the last duplicate key winning. Any other text gives an ordinary ValueError (json_invalid ValidationError), never a crash or a partial value. With allow_partial a truncated document yields exactly the longest prefix of complete elements, with trailing strings kept only in trailing-strings mode, and a complete document is unaffected.",
  ["inputs"], "every text over a JSON token and character alphabet up to a length bound, and every prefix of documents",
  "Validity of texts is a language question: short malformed texts are far too many for tests to list.",
  ["src/lib.rs", V+"mod.rs", V+"json.rs", I+"input_json.rs", I+"return_enums.rs"],
  [("from_json", "src/lib.rs from_json"), ("json parsing in validate_json", V+"mod.rs SchemaValidator::_validate_json; src/errors/mod.rs / "+I+"input_json.rs")],
  ["from_json(text), validate_json(text), json schema validator"])

p("C05", "Collections keep every item in order, count exactly and blame the right index",
  "For list, tuple (fixed, variadic, with head and tail items), set, frozenset and dict schemas, the output holds exactly the validated items of the input in input order (omitted items left out), every failing item is reported exactly once at its own index or key (all of them, or only up to the first with fail_fast), and length bounds are enforced exactly. This holds the same for lists, tuples, sets, dict views, deques, iterators and JSON arrays wherever that input type is accepted, and unbounded iterators stop being consumed once max_length is exceeded.",
  ["inputs", "configurations"], "every collection schema setting, input container type and sequence of good, bad, omitted and raising items up to a length bound",
  "Off-by-one errors in indices, lengths and tail buffering only show for particular lengths and fault positions.",
  [V+"list.rs", V+"tuple.rs", V+"set.rs", V+"frozenset.rs", V+"dict.rs", I+"return_enums.rs"],
  [("item loop", I+"return_enums.rs validate_iter_to_vec / validate_iter_to_set"), ("length check while iterating", I+"return_enums.rs MaxLengthCheck"), ("variadic tuples", V+"tuple.rs validate_tuple_variable"), ("dict loop", V+"dict.rs ValidateToDict")],
  ["validate_python / validate_json output and errors()"])

p("C06", "Fields are found, validated, defaulted, reported and counted exactly as declared",
  "For typed-dict, model-fields and dataclass-args schemas the output, the extras and the fields-set are exactly those given by a simple reference: look each field up by its alias (key, path or choice list, first match wins) and/or name according to the runtime, then config, flags, validate it or take its default, then ignore, keep or forbid what is left. Every missing, invalid and forbidden field is reported, each exactly once, at the location given by loc_by_alias. The same holds for dict, mapping, JSON, keyword-argument and attribute (from_attributes) inputs.",
  ["inputs", "configurations"], "every combination of field kind, alias kind, by_alias/by_name source, extra mode, strictness, input form and presence/validity of each key",
  "The outcome depends on the product of about ten settings and on which keys are present; tests fix most of them.",
  [V+"model_fields.rs", V+"typed_dict.rs", V+"dataclass.rs", "src/lookup_key.rs", V+"config.rs", V+"validation_state.rs"],
  [("field loop", V+"model_fields.rs ModelFieldsValidator::validate"), ("typed dict loop", V+"typed_dict.rs TypedDictValidator::validate"), ("alias lookup", "src/lookup_key.rs LookupKeyCollection::select, py_get_dict_item, json_get"), ("extras", V+"model_fields.rs Consumer; "+V+"dataclass.rs")],
  ["validate_python/validate_json output, fields_set, errors()"])

p("C07", "Assignment is atomic, and a history of assignments equals a reference object",
  "After any sequence of validate_assignment calls on a model, root model or dataclass instance, the instance's values, extras and fields-set equal those of a reference object that applies only the successful assignments. A failed assignment (invalid value, frozen, unknown or forbidden field, failing inner or outer validator) raises ValidationError for that field and leaves the instance exactly as it was.",
  ["histories"], "every sequence, up to a depth bound, of assignments of good and bad values to known, frozen, extra and unknown fields, per extra mode and wrapper validator",
  "It is about states reached by histories, including failed steps; tests look at one assignment from a fresh instance.",
  [V+"model.rs", V+"model_fields.rs", V+"dataclass.rs", V+"function.rs", V+"definitions.rs", V+"mod.rs"],
  [("model assignment", V+"model.rs ModelValidator::validate_assignment"), ("fields assignment", V+"model_fields.rs validate_assignment"), ("dataclass assignment", V+"dataclass.rs DataclassArgsValidator::validate_assignment")],
  ["instance __dict__, __pydantic_extra__, __pydantic_fields_set__, slots; errors()"],
  [("instance dict / extra / fields_set", "the mutable state of a model instance", V+"model.rs force_setattr")])

p("C08", "A model or dataclass instance is built the same by every route",
  "Validating data into a model or dataclass (directly, through __init__ with self_instance, from an instance under revalidate_instances never/always/subclass-instances, or from attributes) yields an instance of the declared class, or keeps the given instance exactly when the revalidation policy says so, with the same fields, extras and fields-set on every route. post_init and custom __init__ run exactly once per construction, after the fields are set, and a failure in them or in validation leaves no half-built instance visible.",
  ["inputs", "configurations"], "every combination of construction route, revalidation policy, class relation, root/extra setting, post_init/custom_init and field outcome",
  "It equates several routes over a product of settings; each test exercises one route with one setting.",
  [V+"model.rs", V+"dataclass.rs", V+"model_fields.rs"],
  [("construction", V+"model.rs ModelValidator::validate, validate_construct, validate_init"), ("revalidation", V+"model.rs Revalidate::should_revalidate"), ("dataclass", V+"dataclass.rs DataclassValidator::validate, validate_init, set_dict_call")],
  ["returned instance type and attributes, identity with input, hook call log"])

p("C09", "Smart unions choose the best matching branch; left_to_right the first",
  "In smart mode a union returns the result of the branch with the most fields set among model-like matches, then the most exact match (exact over strict over lax), then the first in declaration order; in left_to_right mode it returns the first branch that succeeds. The choice does not depend on how branches are wrapped (nullable, definition reference, nested union, function wrappers, defaults) or on what was validated before or elsewhere in the input. When no branch matches, the errors of all branches are reported, in order, under the branch labels (or the custom error alone).",
  ["inputs", "configurations"], "every union of up to three or four branches from a branch alphabet, in every order and nesting, on every input of a value alphabet, in both modes and strictnesses",
  "Selection depends on exactness accumulated through nested validators; a state leak shows only for particular branch orders and nestings.",
  [V+"union.rs", V+"validation_state.rs", V+"nullable.rs", V+"definitions.rs"],
  [("smart selection", V+"union.rs UnionValidator::validate_smart"), ("exactness floor", V+"validation_state.rs floor_exactness / Exactness"), ("fields_set_count", V+"model_fields.rs, "+V+"typed_dict.rs, "+V+"dataclass.rs")],
  ["value and type returned, errors() locations"],
  [("ValidationState.exactness, fields_set_count", "quality of the match so far, must be restored around each branch", V+"validation_state.rs")])

p("C10", "Tagged unions dispatch on the discriminator and run only the chosen branch",
  "A tagged union extracts the tag by key, alias path, choice list, attribute or function, and validates with exactly the branch registered for that tag; no other branch or its callbacks run. A missing tag gives union_tag_not_found, an unknown tag union_tag_invalid listing the expected tags, and errors of the chosen branch are located under its tag; when int, str, enum and bool tags compare equal, the one of the same type wins.",
  ["inputs", "configurations"], "every discriminator kind, tag alphabet and input form (dict, JSON, object), including missing, unknown, null, unhashable and wrong-typed tags",
  "Dispatch crosses tag types, input forms and discriminator kinds; tests take some of the pairs.",
  [V+"union.rs", V+"literal.rs", "src/lookup_key.rs"],
  [("dispatch", V+"union.rs TaggedUnionValidator::validate, find_call_validator"), ("tag lookup", V+"literal.rs LiteralLookup::validate")],
  ["return value, branch call log, errors()"])

p("C11", "Literal and enum validation matches membership by value and type",
  "A literal schema accepts an input exactly when it equals one of the expected values ('1' is not 1, bytes match only bytes; of equal values such as True and 1 or an enum member and its value the one of the input's own type wins), and returns the declared member itself. An enum schema returns the member whose value matches the input (in lax mode also through the sub-type conversion or the missing hook), in strict Python mode only instances, and otherwise raises an error listing exactly the expected values.",
  ["inputs", "configurations"], "every set of expected values up to a size bound from an alphabet of confusable values, every input from that alphabet, strictness and input mode",
  "Lookups are split over bool, int, str and general tables; confusions show only for particular mixtures.",
  [V+"literal.rs", V+"enum_.rs"],
  [("lookup tables", V+"literal.rs LiteralLookup::new/validate"), ("enum fallback", V+"enum_.rs EnumValidator::validate, EnumValidateValue impls")],
  ["value identity, errors()"])

p("C12", "Defaults fill in exactly when they should and are never shared",
  "A default or default_factory is used exactly when the value is absent (or is PydanticUndefined, or a validator asks for the default, or on_error='default' and validation failed), the factory is called exactly once per use and receives the already validated data when it takes it, and validate_default applies the inner schema to it. on_error='omit' drops the field or item and 'raise' reports the error. A mutable (unhashable) default is copied for every use, so no two outputs, nor the schema, ever share it, after any history of validations and mutations of results.",
  ["inputs", "configurations", "histories"], "every default setting in every container (field, tuple tail, argument, list item, top level), every presence/failure of the value, and every short history of validations with mutation of earlier outputs",
  "Aliasing shows only across a history of calls; precedence shows only in combinations.",
  [V+"with_default.rs", V+"model_fields.rs", V+"typed_dict.rs", V+"dataclass.rs", V+"arguments.rs", V+"tuple.rs", V+"mod.rs"],
  [("default handling", V+"with_default.rs WithDefaultValidator::validate/default_value"), ("copy of mutable defaults", V+"with_default.rs copy_default")],
  ["output, identity of default objects, factory call log, get_default_value"])

p("C13", "Function validators run in order, see the right info and convert errors",
  "Before, after, wrap and plain functions run exactly once per validation of their node, in nesting order, each receiving the value produced by the previous step and an info object carrying this call's mode, context, config, field name and the data validated so far. ValueError and AssertionError become value_error/assertion_error at the node's location, PydanticCustomError, PydanticKnownError, Omit and UseDefault take their documented meaning, an inner ValidationError is merged with its locations, and every other exception propagates unchanged. Runtime settings (strict, context, by_alias, by_name, from_attributes) reach the inner schema of a wrap function exactly as they would without it.",
  ["inputs", "configurations", "fault_sequences"], "every nesting of the four function kinds up to a depth bound, in every container, with every outcome (return, each exception kind, handler called 0, 1 or 2 times)",
  "The protocol is a matter of sequences of calls and faults; tests check one function at a time.",
  [V+"function.rs", V+"generator.rs", V+"validation_state.rs", "src/errors/validation_exception.rs"],
  [("calls and error conversion", V+"function.rs convert_err and Function*Validator"), ("wrap handler", V+"generator.rs InternalValidator"), ("info", V+"function.rs ValidationInfo")],
  ["call log, info attributes, value, errors()"])

p("C14", "Recursive input never loops: cycles are reported and sharing is allowed",
  "Validating or serializing data with recursive schemas terminates for every object graph: an object reached again through itself is reported as recursion_loop (or circular reference on serialization) exactly at the reference that closes the cycle, while objects that are merely shared or repeated are accepted. The outcome for one part of the input is independent of loops or depth errors found in other parts, and validators and serializers stay usable afterwards.",
  ["inputs"], "every directed object graph up to a node bound over list, dict, model and dataclass nodes, plus chains around the guard's size thresholds",
  "Guards are keyed by object identity and state; wrong release order shows only for particular graph shapes.",
  ["src/recursion_guard.rs", V+"definitions.rs", S+"extra.rs", S+"infer.rs", T+"definitions.rs"],
  [("guard", "src/recursion_guard.rs RecursionGuard / RecursionState"), ("validation use", V+"definitions.rs DefinitionRefValidator::validate"), ("serialization use", S+"extra.rs SerRecursionState; "+S+"infer.rs")],
  ["result structure, error locations, exception type"],
  [("RecursionState ids/depth", "the set of objects being visited and current depth", "src/recursion_guard.rs")])

p("C15", "Lazy generators validate items on demand, in order, without over-consuming",
  "The iterator returned by a generator schema pulls from the input only when asked, yields each input item validated in order, reports a failing item at its index, enforces min_length when exhausted and max_length when exceeded, and behaves as an ordinary iterator under any interleaving of next, len hints and other iterators made by the same validator. Runtime settings given to the validate call (strict, context, by_alias, by_name, from_attributes) apply to every item, however late it is pulled; a lazily serialized generator (SerializationIterator) equally yields each serialized item once, in order.",
  ["histories", "inputs"], "every sequence of operations up to a depth bound on one or two live generators over input lists with good, bad and raising items",
  "State lives across calls; each interleaving of operations is a different history.",
  [V+"generator.rs", T+"generator.rs", I+"return_enums.rs"],
  [("validation iterator", V+"generator.rs ValidatorIterator::__next__"), ("state carried over", V+"generator.rs InternalValidator"), ("serialization iterator", T+"generator.rs SerializationIterator")],
  ["items yielded, consumption counter of the source, errors"],
  [("ValidatorIterator index, source iterator", "position in the source", V+"generator.rs")])

p("C16", "Partial validation drops only an incomplete last element",
  "With allow_partial, validating a truncated JSON text (or Python data) returns the result of the complete elements and drops at most the last element at each level of the trailing path, if that element is incomplete or invalid; an invalid element anywhere else is still an error. Mapping keys, forbidden extras and required fields are reported even in the last position, and tuples, models, dataclasses, arguments, generators, definition references and wrap handlers validate their content without partial mode, leaving it unchanged for what is validated after them. Documents that validate in full against a schema without alternatives (unions, on_error) give the same result with and without allow_partial, and growing a prefix never turns a kept element into a different one once a later element has started.",
  ["inputs"], "every prefix of every document of a document set, for every container schema kind supporting partial mode, with off, on and trailing-strings",
  "It is a statement about all prefixes; tests sample a few.",
  [V+"validation_state.rs", V+"list.rs", V+"dict.rs", V+"set.rs", V+"typed_dict.rs", V+"tuple.rs", V+"mod.rs", I+"return_enums.rs"],
  [("last-element tracking", V+"validation_state.rs enumerate_last_partial"), ("drop rule", I+"return_enums.rs, "+V+"dict.rs, "+V+"typed_dict.rs")],
  ["validate_json(prefix, allow_partial=...)"])

p("C17", "Argument schemas bind calls exactly as Python would",
  "For arguments and arguments-v3 schemas, binding positional and keyword arguments to positional-only, positional-or-keyword, keyword-only, *args and **kwargs (uniform or unpacked typed dict) parameters with defaults and aliases succeeds exactly when the equivalent Python signature would accept the call and each value is valid, and produces the same bound values. Otherwise every missing, duplicated, unexpected and invalid argument is reported once at its own location. A call schema calls the function exactly once, with those arguments, only if binding succeeded, and validates the return value if asked.",
  ["inputs", "configurations"], "every signature up to four parameters over parameter kinds and defaults, and every call shape up to a size bound, as ArgsKwargs, dict, tuple and JSON",
  "Binding errors appear for particular (signature, call) pairs, of which there are thousands.",
  [V+"arguments.rs", V+"arguments_v3.rs", V+"call.rs", "src/argument_markers.rs"],
  [("binding", V+"arguments.rs ArgumentsValidator::validate"), ("v3 binding", V+"arguments_v3.rs"), ("call", V+"call.rs CallValidator::validate")],
  ["(args, kwargs) output, function call log, errors()"])

p("C18", "include and exclude select exactly the named parts at every level",
  "Serializing with include and/or exclude (sets, nested dicts, __all__, negative indexes; given at call time, on the field or on the schema) outputs exactly the elements a reference filter selects: an element is dropped if excluded, kept if included or no include is given, and nested selections apply to its content. The selection is the same in to_python (python and json mode) and to_json, and for lists, tuples, dicts, typed dicts, models, dataclasses and inferred values; the caller's include/exclude objects are not modified.",
  ["inputs", "configurations"], "every include/exclude expression up to a nesting bound over the keys and indexes of a set of nested values, in all three output modes and for schema-based and inferred serialization",
  "Filters compose per level from two or three sources; each composition is a separate case.",
  [S+"filter.rs", S+"fields.rs", S+"infer.rs", T+"list.rs", T+"tuple.rs", T+"dict.rs", T+"typed_dict.rs"],
  [("filter", S+"filter.rs SchemaFilter / FilterLogic / AnyFilter"), ("merge of __all__", S+"filter.rs merge_all_value")],
  ["to_python/to_json output"])

p("C19", "to_json and to_python(mode='json') agree for every schema and option",
  "For any serializer, value and option set (exclude_unset, exclude_defaults, exclude_none, by_alias, round_trip, include/exclude, context, inf/nan, bytes and timedelta modes), to_json yields valid JSON whose parse equals to_python(mode='json') (non-finite floats compared as the JSON text they are written as; strings without lone surrogates); both raise or both succeed, with the same warnings. indent and ensure_ascii only change the layout. Fields, extras and computed fields appear exactly as the exclude options prescribe, in declaration order and under the name or serialization alias by_alias prescribes.",
  ["inputs", "configurations"], "every schema kind (leaf and one or two levels of nesting), every value of a value alphabet (matching or not) and every combination of options",
  "The python and JSON paths are separate implementations (to_python, serde_serialize) of each serializer; agreement is a product statement.",
  [S+"mod.rs", S+"fields.rs", S+"infer.rs", S+"ser.rs", S+"computed_fields.rs", T+"*.rs"],
  [("two paths", S+"shared.rs TypeSerializer::to_python / serde_serialize"), ("fields", S+"fields.rs GeneralFieldsSerializer::main_to_python / main_serde_serialize"), ("computed fields", S+"computed_fields.rs")],
  ["SchemaSerializer.to_python/to_json output, warnings, exceptions"])

p("C20", "Serialization by type inference is total, valid and consistent",
  "to_jsonable_python, to_json and any-schema serializers treat a value of unknown type the same: standard types (and their subclasses and nested containers) map to their documented JSON form, everything else raises PydanticSerializationError unless fallback or serialize_unknown decides. to_json(x) parses to to_jsonable_python(x), dict keys become strings by the same rules as in the JSON output, mode='python' returns an equal structure without sharing mutable containers, and no input value is changed.",
  ["inputs", "configurations"], "every value built from an alphabet of supported, subclassed and unknown leaves in nested containers up to a depth bound, under every inference option",
  "Type dispatch has two paths (exact type and isinstance) and two outputs; agreement for all types and positions is not testable case by case.",
  [S+"infer.rs", S+"ob_type.rs", S+"mod.rs", S+"config.rs"],
  [("inference", S+"infer.rs infer_to_python_known / infer_serialize_known / infer_json_key_known"), ("type lookup", S+"ob_type.rs ObTypeLookup")],
  ["to_jsonable_python, to_json, SchemaSerializer(any)"])

p("C21", "Union serialization uses a matching branch and warns only on a real mismatch",
  "Serializing through a union (plain, nested or tagged) gives the output of a branch whose type matches the value (the strictest match first, the discriminated branch for tagged unions) and emits no warning whenever some branch matches. A warning is emitted exactly when a value does not conform to its serializer's type (None and values of literal schemas outside a union are not checked), never for a conforming value, and warnings='none'/False suppresses, 'warn'/True warns and 'error' raises, with the same result data in all modes and outputs; no warning of a tried and rejected branch survives.",
  ["inputs", "configurations"], "every union of up to three branches from an alphabet, in every order and nesting position, on matching and non-matching values, for each warnings mode and output mode",
  "Branch trials share warning state; leaks show only for particular orders and nesting.",
  [T+"union.rs", S+"extra.rs", S+"shared.rs", T+"simple.rs"],
  [("branch choice", T+"union.rs union_serialize / tagged_union_serialize"), ("warning state", S+"extra.rs CollectWarnings, SerCheck")],
  ["output, warnings list, PydanticSerializationError/UnexpectedValue"],
  [("CollectWarnings", "warnings gathered in this call", S+"extra.rs"), ("SerCheck", "strictness of type checks inside a union", S+"extra.rs")])

p("C22", "Function serializers are applied exactly when declared, with the right info",
  "Plain and wrap function serializers are called exactly once per serialized value when when_used (always, unless-none, json, json-unless-none) says so and not otherwise, with the model instance for field serializers and an info carrying this call's mode, include/exclude, by_alias, exclude_* flags, round_trip, context and field name. Their result is serialized by the return schema (or inferred), a wrap handler serializes the value as the inner schema would, and exceptions of the function become PydanticSerializationErrors (PydanticSerializationUnexpectedValue a warning) in every output mode. The handler called with an index or key applies the filter below it and raises PydanticOmit when it is filtered out; where the function is not used the value is serialized, filters included, by the schema it wraps or is attached to.",
  ["inputs", "configurations", "fault_sequences"], "every function kind, when_used, info/field arity, nesting position, output mode and outcome (value, None, raises)",
  "The protocol crosses output mode with position and outcome.",
  [T+"function.rs", S+"extra.rs", S+"fields.rs"],
  [("plain and wrap", T+"function.rs FunctionPlainSerializer / FunctionWrapSerializer"), ("info", T+"function.rs SerializationInfo"), ("handler", T+"function.rs SerializationCallable")],
  ["call log, info attributes, output"])

p("C23", "Serialized data validates back to the same value",
  "For every core schema whose type has a faithful serialization, validating to_python(value, mode='python') in Python mode, to_json(value, round_trip=True) in JSON mode, and to_python(value, mode='json') written as JSON returns a value equal to the original, under each matching pair of ser_json_*/val_json_* settings (where the setting loses nothing: not non-finite floats as null, nor float timedeltas beyond double precision); this includes extremes of range, precision and unicode. Serializing the validated value again gives the identical text.",
  ["inputs", "configurations"], "every schema kind with every valid value of a boundary alphabet, nested one level in containers and models, under all ser/val mode pairs",
  "Round trips compose a serializer and a parser; only boundary values of particular types break them.",
  [T+"*.rs", V+"*.rs", S+"config.rs", I+"datetime.rs", "src/url.rs"],
  [("formats", S+"config.rs BytesMode, TimedeltaMode, InfNanMode"), ("parsers", I+"datetime.rs, "+I+"shared.rs")],
  ["validate(serialize(value)) == value"])

p("C24", "A ValidationError describes exactly what failed, the same in every rendering",
  "For every failure, error_count() equals the number of entries of errors(), json() and the rendering of str(), in the same order; every location leads to the failing element, input is that element, msg is the template of type filled from ctx, and include_url/include_context/include_input/hide_input only remove what they name. Building a ValidationError from errors() with from_exception_data, or copying and pickling it where supported, gives the same lines; every type in list_all_errors can be raised as a PydanticKnownError with its context and renders its documented message.",
  ["inputs", "configurations"], "every error type with its context values, and every failing (schema, input) pair of a nested universe, under all rendering flags",
  "It must hold for every error type times rendering times nesting; tests compare expected strings for chosen ones.",
  ["src/errors/validation_exception.rs", "src/errors/line_error.rs", "src/errors/location.rs", "src/errors/types.rs", "src/errors/value_exception.rs"],
  [("rendering", "src/errors/validation_exception.rs ValidationError::errors/json/display"), ("locations", "src/errors/location.rs Location"), ("types", "src/errors/types.rs ErrorType")],
  ["errors(), json(), str(), repr(), error_count(), title"])

p("C25", "Concurrent and re-entrant use of one validator or serializer never interferes",
  "A SchemaValidator or SchemaSerializer used by several threads, or re-entered from its own callbacks, gives each call exactly the result, errors, warnings, info data and context that call gets when it runs alone, whatever the interleaving. Live iterators made by one validator are independent of each other and of other calls, and no call sees another call's flags, data, recursion state or defaults.",
  ["schedules"], "every interleaving, up to a preemption bound, of two or three calls on shared validators/serializers whose scheduling points are the Python callbacks inside them, and every re-entrant call at each such point",
  "Interleavings inside callbacks are not under a test's control; each schedule is a separate behaviour.",
  [V+"mod.rs", V+"validation_state.rs", V+"function.rs", V+"generator.rs", "src/recursion_guard.rs", "src/definitions.rs", S+"extra.rs", S+"mod.rs", "src/common/prebuilt.rs"],
  [("per call state", V+"validation_state.rs ValidationState, Extra"), ("shared lazies", "src/definitions.rs DefinitionRef; "+V+"list.rs name OnceLock; "+T+"function.rs")],
  ["per-thread results vs solo results"],
  [("shared objects", "validator tree, definitions, string cache, size hints", V+"mod.rs, src/definitions.rs, "+S+"mod.rs expected_json_size")])

p("C26", "No input, schema or option makes the library panic or crash",
  "For every schema, input value and option, building a validator or serializer either succeeds or raises SchemaError (or the exception of the user's object), and every validate, serialize, error-rendering and parsing call either returns or raises a documented Python exception. No call ever raises PanicException or an internal SystemError, aborts the process, or leaves the validator unusable.",
  ["inputs", "configurations"], "every schema kind with each field set to each value of a hostile alphabet, and every built schema on every value of a hostile input alphabet in every entry point",
  "Absence of crashes is a statement about all inputs; crashes hide in unusual pairs of schema and value.",
  ["src/lib.rs", V+"*.rs", S+"*.rs", I+"*.rs", "src/errors/*.rs", "src/url.rs", "src/build_tools.rs"],
  [("unwraps and casts", "throughout; e.g. "+I+"input_python.rs, "+V+"complex.rs, "+V+"decimal.rs"), ("schema building", V+"mod.rs build_validator; "+S+"mod.rs; src/build_tools.rs")],
  ["exception types escaping from every public entry point"])

p("C27", "Date, time, datetime and timedelta parsing and constraints are exact",
  "Temporal schemas accept exactly the documented ISO 8601 strings, numbers (with the configured unit) and Python objects, and return the instant or duration they denote with exact microseconds (rounded or truncated as configured), timezone offset and sign; everything outside the format or the representable range is a ValidationError. Bounds (gt, ge, lt, le), now_op past/future with offset, tz_constraint and date-from-datetime rules are decided as Python's own comparison decides them, and serializing gives ISO text that parses back to the same value.",
  ["inputs", "configurations"], "every value of field-wise boundary alphabets (year to microsecond, offset, sign, unit) in text, numeric and object form, under each constraint and mode setting",
  "Calendar boundaries, offsets, signs and fractions combine into many edge cases that tests sample sparsely.",
  [I+"datetime.rs", V+"date.rs", V+"datetime.rs", V+"time.rs", V+"timedelta.rs", T+"datetime_etc.rs", T+"timedelta.rs"],
  [("conversion", I+"datetime.rs EitherDate/EitherTime/EitherDateTime/EitherTimedelta"), ("constraints", V+"datetime.rs, "+V+"date.rs, "+V+"time.rs, "+V+"timedelta.rs")],
  ["validated value, errors, serialized text"])

p("C28", "URL validation normalises consistently and accessors recompose the URL",
  "For url and multi-host-url schemas, acceptance respects allowed_schemes, max_length, host_required and the default host, port and path; the resulting object's str() revalidates to an equal object (normalisation is idempotent), and its scheme, username, password, host(s), port, path, query and fragment recompose to it, also through build(). Equality, ordering and hash agree with the text, copies and pickles equal the original, and Url and str inputs and schema and class constructors agree.",
  ["inputs", "configurations"], "every URL composed from component alphabets (scheme, credentials, hosts, port, path, query, fragment, unicode/IP/escaped forms), every constraint setting, and pairs of results for comparison",
  "Components interact (special schemes, default ports, empty parts, multiple hosts); tests list isolated examples.",
  [V+"url.rs", "src/url.rs"],
  [("parsing", V+"url.rs parse_url, parse_multihost_url"), ("accessors and build", "src/url.rs PyUrl, PyMultiHostUrl")],
  ["str(), accessors, ==, <, hash, build()"])

p("C29", "Indirection is transparent: definitions, nesting, pickling and prebuilding",
  "Replacing a schema by an equivalent form (a definition reference, inlined or recursive, a nullable or default wrapper that is not triggered, a one-step chain, a lax-or-strict or json-or-python schema with equal arms, a prebuilt model validator or serializer, or a pickled/deep-copied SchemaValidator or SchemaSerializer) does not change any validation or serialization result, error type or error location other than documented labels.",
  ["configurations", "inputs"], "every wrapper form, in every position and composed up to depth two, around every schema of a base alphabet, on every value of an alphabet, in all modes",
  "It is a congruence over all schemas; tests check each wrapper against a few inner schemas.",
  [V+"definitions.rs", "src/definitions.rs", V+"nullable.rs", V+"chain.rs", V+"lax_or_strict.rs", V+"json_or_python.rs", V+"prebuilt.rs", "src/common/prebuilt.rs", S+"prebuilt.rs", T+"definitions.rs", T+"nullable.rs", T+"json_or_python.rs"],
  [("definitions", "src/definitions.rs DefinitionsBuilder"), ("prebuilt", "src/common/prebuilt.rs get_prebuilt"), ("pickle", V+"mod.rs SchemaValidator::__reduce__")],
  ["results of wrapped vs plain"])

p("C30", "Validators and serializers in reference cycles are garbage collected",
  "When a class, function or default object held by a SchemaValidator or SchemaSerializer (in any schema position that can hold a Python object) refers back to that validator or serializer, directly or through handlers, iterators, info objects, results and errors it handed out, and nothing else does, the garbage collector reclaims all of them; collection never disturbs a validator still in use, and reference counts of inputs, outputs and callbacks are balanced after every call, successful or failing.",
  ["configurations", "histories"], "every schema kind and every position in it that can hold a Python object, each closed into a cycle; every call outcome repeated",
  "Each schema kind has its own traversal list; forgetting one entry leaks only for that kind.",
  ["src/py_gc.rs", V+"mod.rs", V+"*.rs", S+"mod.rs", T+"*.rs", "src/definitions.rs"],
  [("traversal", "src/py_gc.rs PyGcTraverse, impl_py_gc_traverse!"), ("entry", V+"mod.rs SchemaValidator::__traverse__; "+S+"mod.rs SchemaSerializer::__traverse__")],
  ["weakref liveness after gc.collect(), sys.getrefcount deltas"])

p("C31", "A failing callback leaves no trace: inputs intact, validator reusable",
  "If any user callback (validator, serializer, default factory, property, iterator, mapping, attribute, __eq__/__hash__, discriminator) raises at any point of a validate or serialize call, the call ends with the documented error or that very exception, the caller's inputs are unmodified, and the same validator or serializer afterwards behaves exactly like a fresh one. In a successful call too, inputs are never modified and outputs do not alias mutable containers of the input that validation rebuilds.",
  ["fault_sequences", "histories"], "every callback position in a set of nested programs, every single and double fault (exception kind at the n-th callback), followed by probe calls",
  "The fault position is a hidden variable; tests inject one error at one place.",
  [V+"*.rs", S+"*.rs", V+"validation_state.rs", S+"extra.rs", "src/recursion_guard.rs"],
  [("state restore on error", V+"validation_state.rs rebind_extra / ValidationStateRestore; src/recursion_guard.rs Drop"), ("error conversion", V+"function.rs convert_err; "+T+"function.rs on_error")],
  ["exception identity, deep snapshot of inputs before/after, probe results"])

p("C32", "Model and dataclass dumps reflect exactly the object's fields",
  "Serializing a model, dataclass or typed dict emits each declared field of the instance once, in the order the instance holds them (validation stores them in declaration order; dataclasses use the order of the schema), then extras, then computed fields, each under its name or alias, minus fields declared excluded, unset (exclude_unset), equal to their default (exclude_defaults) or None (exclude_none), and minus computed fields in round_trip mode. Names are chosen by by_alias or, when that is not given, by serialize_by_alias in the configuration of the model, dataclass or typed dict that declares the field. Subclass instances of models and dataclasses emit the fields of the declared schema only, unless serialize_as_any asks otherwise, in which case the subclass's own serializer is used, at every depth.",
  ["inputs", "configurations"], "every combination of up to three fields of different kinds, instance states (set, unset, default, None, extra), subclass relations and the dump flags, in all output modes",
  "Flags multiply with field states and with subclassing; tests vary one at a time.",
  [S+"fields.rs", S+"computed_fields.rs", T+"model.rs", T+"dataclass.rs", T+"typed_dict.rs", T+"any.rs", S+"infer.rs"],
  [("field filtering", S+"fields.rs GeneralFieldsSerializer"), ("model", T+"model.rs ModelSerializer"), ("duck typing", S+"extra.rs DuckTypingSerMode; "+S+"mod.rs")],
  ["to_python/to_json output vs a reference dump"])

p("C33", "A composite schema means the composition of its parts",
  "Validating with any nesting of combinators gives what the parts give when composed as documented: nullable passes None and otherwise delegates; a chain feeds each step the previous result; lax-or-strict picks its arm by the strictness of the call, else of the schema, else of the configuration; json-or-python picks its arm by the mode of the call at every depth; custom-error replaces validation errors, and nothing else, by one error on the whole input; a default is used exactly when the input is undefined, the inner validator asks for it, or on_error says so; before, wrap and after functions see and replace exactly the value at their place; a left-to-right union returns its first success or else all errors under the members' labels; a function-tagged union uses exactly the tagged member; a definition reference means its definition. is-instance, is-subclass and callable decide exactly as Python's isinstance, issubclass and callable do, return the object itself and let exceptions of the class's own hooks through.",
  ["configurations", "inputs"], "every tree of combinators up to depth two (parts of depth three) over an alphabet of leaves and failing functions, every mode, strictness and configuration, on an alphabet of inputs; every class x object of an alphabet for the class checks",
  "Compositionality quantifies over all schemas; tests exercise each combinator over one or two leaves.",
  [V+"nullable.rs", V+"chain.rs", V+"lax_or_strict.rs", V+"json_or_python.rs", V+"custom_error.rs", V+"with_default.rs", V+"function.rs", V+"union.rs", V+"definitions.rs", V+"is_instance.rs", V+"is_subclass.rs", V+"callable.rs"],
  [("combinators", V+"*.rs Validator::validate"), ("class checks", V+"is_instance.rs, "+V+"is_subclass.rs, "+V+"callable.rs")],
  ["value, error type, location, context, input and message of every result vs a reference interpreter"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
