PROP = 'C06'
NEEDS = 'a JSON object with a duplicated key which an alias path starts at'
BREAKS = 'the first instead of the last duplicate is used for alias paths'
EDITS = [('src/lookup_key.rs', """                    let v: &JsonValue = match dict
                        .iter()
                        .rev()
                        .find_map(""", """                    let v: &JsonValue = match dict
                        .iter()
                        .find_map(""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema(), validation_alias=['k', 'x'])}))
assert v.validate_json('{"k": {"x": 1}, "k": {"x": 2}}') == {'a': 2}
'''
