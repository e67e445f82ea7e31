PROP = 'C16'
NEEDS = 'partial validation of a typed dict whose last field is given under an alias'
BREAKS = 'an invalid or incomplete last element is an error when its field has an alias'
EDITS = [('src/validators/typed_dict.rs', """                        let first_key_loc: LocItem = lookup_path.first_key().into();
                        &first_key_loc == last_key
""", """                        let field_loc: LocItem = field.name.clone().into();
                        &field_loc == last_key
""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
f = cs.typed_dict_field
v = SchemaValidator(cs.typed_dict_schema({'a': f(cs.int_schema(), required=False), 'b': f(cs.str_schema(min_length=3), required=False, validation_alias='bee')}))
assert v.validate_json('{"a": 1, "bee": "x', allow_partial='trailing-strings') == {'a': 1}
assert v.validate_python({'a': 1, 'bee': 'x'}, allow_partial=True) == {'a': 1}
'''
