PROP = 'C17'
NEEDS = 'extra positional arguments for *args where an earlier one fails, after a positional argument was left out'
BREAKS = 'an unexpected positional argument is reported under its index among the extra ones'
EDITS = [('src/validators/arguments.rs', """                    for (index, item) in args.iter().enumerate().skip(self.positional_params_count) {
                        match validator""", """                    for (index, item) in args.iter().skip(self.positional_params_count).enumerate() {
                        let index = if index == 0 { self.positional_params_count } else { index + self.parameters.len() };
                        match validator""")]
NEEDS = 'several extra positional arguments for *args, the second or later one failing, in a function that has keyword-only parameters'
BREAKS = 'a failing *args item is reported at the wrong index'
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, ArgsKwargs, core_schema as cs
p = cs.arguments_parameter
v = SchemaValidator(cs.arguments_schema([p('a', cs.int_schema()), p('k', cs.int_schema(), mode='keyword_only')], var_args_schema=cs.int_schema()))
try: v.validate_python(ArgsKwargs((1, 2, 'x', 'y'), {'k': 1}))
except ValidationError as e: assert [x['loc'] for x in e.errors()] == [(2,), (3,)], e.errors()
else: raise AssertionError
'''
