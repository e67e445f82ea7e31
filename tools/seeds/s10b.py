PROP = 'C10'
NEEDS = 'a discriminator key whose value is None'
BREAKS = 'a tag None is reported as missing, and a branch registered for None is never used'
EDITS = [('src/validators/union.rs', """                self.find_call_validator(py, &tag.borrow_input().to_object(py)?, input, state)
""", """                let tag = tag.borrow_input().to_object(py)?;
                if PyAnyMethods::is_none(&tag) {
                    return Err(self.tag_not_found(input));
                }
                self.find_call_validator(py, &tag, input, state)
""")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
f = cs.typed_dict_field
td = lambda: cs.typed_dict_schema({'k': f(cs.any_schema()), 'n': f(cs.int_schema())})
v = SchemaValidator(cs.tagged_union_schema({'a': td(), 'b': td()}, 'k'))
assert v.validate_python({'k': 'a', 'n': 1}) == {'k': 'a', 'n': 1}
try: v.validate_python({'k': None, 'n': 1})
except ValidationError as e: assert e.errors()[0]['type'] == 'union_tag_invalid', e.errors()
'''
