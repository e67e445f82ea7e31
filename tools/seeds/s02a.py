PROP = 'C02'
NEEDS = 'a UUID instance of another version and strict mode'
BREAKS = 'in strict mode the required version of a UUID is not checked for instances, so strict accepts what lax rejects'
EDITS = [('src/validators/uuid.rs', """            if let Some(expected_version) = self.version {
                let py_input_version""", """            // strict mode takes the instance as it is
            let version = self.version.filter(|_| !state.strict_or(self.strict));
            if let Some(expected_version) = version {
                let py_input_version""")]
DEMO = r'''
from uuid import UUID
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.uuid_schema(version=4))
u1 = UUID('c03d8c10-3a5c-11ee-be56-0242ac120002')
assert u1.version == 1
assert not v.isinstance_python(u1)
assert not v.isinstance_python(u1, strict=True)
'''
