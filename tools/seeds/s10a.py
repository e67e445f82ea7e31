PROP = 'C10'
NEEDS = 'a tagged union over objects (from_attributes given at run time) in strict mode'
BREAKS = 'the run-time from_attributes is ignored for the discriminator in strict mode'
EDITS = [('src/validators/union.rs', "let from_attributes = state.extra().from_attributes.unwrap_or(self.from_attributes);\n", """let from_attributes = match state.extra().strict {
                    Some(true) => self.from_attributes,
                    _ => state.extra().from_attributes.unwrap_or(self.from_attributes),
                };
""")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
class O: kind = 'a'; x = 1
f = cs.typed_dict_field
class Base:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class A(Base): pass
a = cs.model_fields_schema({'kind': cs.model_field(cs.str_schema()), 'x': cs.model_field(cs.int_schema())})
v = SchemaValidator(cs.tagged_union_schema({'a': a}, 'kind', from_attributes=False))
r = v.validate_python(O(), strict=True, from_attributes=True)
assert r[0] == {'kind': 'a', 'x': 1}, r
try: v.validate_python(O(), strict=True)
except ValidationError: pass
else: raise AssertionError
'''
