PROP = 'C02'
NEEDS = 'a time schema, strict given at the time of the call, and a number as input'
BREAKS = 'strict=True given to validate_python is not applied by that validator'
EDITS = [('src/validators/time.rs', ".validate_time(state.strict_or(self.strict), self.microseconds_precision)", ".validate_time(self.strict, self.microseconds_precision)")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.time_schema())
assert not v.isinstance_python(3600, strict=True)
try:
    v.validate_python('12:13:14', strict=True)
except ValidationError as e:
    assert e.errors()[0]['type'] == 'time_type'
else:
    raise SystemExit('accepted')
'''
