PROP = 'C13'
NEEDS = 'a wrap validator that passes an outer location to the handler during assignment'
BREAKS = 'the outer location given to the handler is dropped in errors of an assignment'
EDITS = [('src/validators/function.rs', """            self.updated_field_value.bind(py),
            outer_location,
        )""", """            self.updated_field_value.bind(py),
            outer_location.filter(|_| input_value.is_exact_instance_of::<PyDict>()),
        )""")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
class M: __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
s = cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema())}))
v = SchemaValidator(cs.no_info_wrap_validator_function(lambda x, h: h(x, 'outer'), s))
m = v.validate_python({'a': 1})
try: v.validate_assignment(m, 'a', 'bad')
except ValidationError as e: assert e.errors()[0]['loc'] == ('outer', 'a'), e.errors()
else: raise AssertionError
'''
