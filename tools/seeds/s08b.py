PROP = 'C08'
NEEDS = 'an instance of the generic origin class, with some fields unset, validated by a parametrised model'
BREAKS = 'an instance of the generic origin is rebuilt with all its fields marked as set'
EDITS = [('src/validators/model.rs', """                    self.validate_construct(py, &inner_input, Some(&fields_set), state)
                }
            } else {""", """                    let fields_set = (!force_revalidate).then_some(&fields_set);
                    self.validate_construct(py, &inner_input, fields_set, state)
                }
            } else {""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
class O:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class P(O): pass
f = cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.with_default_schema(cs.int_schema(), default=1))})
o = SchemaValidator(cs.model_schema(O, f)).validate_python({'a': 1})
p = SchemaValidator(cs.model_schema(P, f, generic_origin=O)).validate_python(o)
assert type(p) is P and p.__pydantic_fields_set__ == {'a'}, p.__pydantic_fields_set__
'''
