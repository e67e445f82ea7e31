PROP = 'C17'
NEEDS = 'unpacked typed dict **kwargs with a missing required key, together with another failing argument'
BREAKS = 'the missing keyword argument is not reported'
EDITS = [('src/validators/arguments.rs', "        if self.var_kwargs_mode == VarKwargsMode::UnpackedTypedDict {\n            // `var", "        if self.var_kwargs_mode == VarKwargsMode::UnpackedTypedDict && (errors.is_empty() || !remaining_kwargs.is_empty()) {\n            // `var")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, ArgsKwargs, core_schema as cs
v = SchemaValidator(cs.arguments_schema([cs.arguments_parameter('a', cs.int_schema())], var_kwargs_mode='unpacked-typed-dict',
    var_kwargs_schema=cs.typed_dict_schema({'k': cs.typed_dict_field(cs.int_schema(), required=True)})))
assert v.validate_python(ArgsKwargs((1,), {'k': 2})) == ((1,), {'k': 2})
try: v.validate_python(ArgsKwargs(('x',), {}))
except ValidationError as e: assert [x['loc'] for x in e.errors()] == [(0,), ('k',)], e.errors()
'''
