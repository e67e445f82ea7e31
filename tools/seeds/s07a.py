PROP = 'C07'
NEEDS = 'a failing assignment to a declared field that was not set before, then a look at the fields-set'
BREAKS = 'a failed assignment marks the field as set'
EDITS = [('src/validators/model.rs', """        input_dict.set_item(field_name, field_value)?;
""", """        if old_dict.contains(field_name)? {
            if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
                fields_set.downcast::<PySet>()?.add(field_name)?;
            }
        }
        input_dict.set_item(field_name, field_value)?;
""")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
v = SchemaValidator(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.with_default_schema(cs.int_schema(), default=1))})))
m = v.validate_python({})
try:
    v.validate_assignment(m, 'a', 'wrong')
except ValidationError:
    pass
else:
    raise SystemExit('accepted')
assert m.a == 1 and m.__pydantic_fields_set__ == set(), m.__pydantic_fields_set__
'''
