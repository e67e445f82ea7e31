PROP = 'C15'
NEEDS = 'a generator pulled after the validate call returned, whose items look at the data of the model being validated when it was made'
BREAKS = 'from_attributes given at run time does not reach items pulled later'
EDITS = [('src/validators/generator.rs', """        let extra = Extra {
            input_type: self.validation_mode,
            data: self.data.as_ref().map(|data| data.bind(py).clone()),
            strict: self.strict,
            from_attributes: self.from_attributes,
            field_name: self.field_name""", """        let extra = Extra {
            input_type: self.validation_mode,
            data: self.data.as_ref().map(|data| data.bind(py).clone()),
            strict: self.strict,
            from_attributes: if self.strict == Some(true) { None } else { self.from_attributes },
            field_name: self.field_name""")]
NEEDS = 'a generator (or a wrap function) over items that are taken from attributes, with strict and from_attributes both given at run time'
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
class O: x = 1
v = SchemaValidator(cs.generator_schema(cs.model_fields_schema({'x': cs.model_field(cs.int_schema())})))
r = list(v.validate_python([O()], strict=True, from_attributes=True))
assert r[0][0] == {'x': 1}, r
'''
