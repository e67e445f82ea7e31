PROP = 'C33'
NEEDS = 'validate_strings with a json-or-python schema whose arms differ'
BREAKS = 'json-or-python uses the python arm for string input'
EDITS = [('src/validators/json_or_python.rs', """            InputType::Python => self.python.validate(py, input, state),
            _ => self.json.validate(py, input, state),""", """            InputType::Json => self.json.validate(py, input, state),
            _ => self.python.validate(py, input, state),""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.json_or_python_schema(cs.int_schema(), cs.str_schema()))
assert v.validate_strings('1') == 1
'''
