PROP = 'C05'
NEEDS = 'a dict with a length bound whose keys become equal when they are validated'
BREAKS = 'the length bounds count items which are not in the result'
EDITS = [('src/validators/dict.rs', "        let mut errors: Vec<ValLineError> = Vec::new();\n", "        let mut errors: Vec<ValLineError> = Vec::new();\n        // the number of valid items\n        let mut items: Vec<()> = Vec::new();\n"),
('src/validators/dict.rs', "                output.set_item(key, output_value)?;\n", "                output.set_item(key, output_value)?;\n                items.push(());\n"),
('src/validators/dict.rs', "self.max_length, output);", "self.max_length, items);")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.dict_schema(cs.int_schema(), cs.int_schema(), max_length=1))
assert v.validate_python({1: 1, '1': 2}) == {1: 2}
v = SchemaValidator(cs.dict_schema(cs.int_schema(), cs.int_schema(), min_length=2))
try:
    v.validate_json('{"1": 1, "01": 2}')
except ValidationError as e:
    assert e.errors()[0]['ctx'] == {'field_type': 'Dictionary', 'min_length': 2, 'actual_length': 1}, e.errors()
else:
    raise SystemExit('accepted a dict of one item')
'''
