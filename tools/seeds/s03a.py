PROP = 'C03'
NEEDS = 'strict mode, a float schema and an integer outside 64 bits in JSON'
BREAKS = 'strict float validation of JSON rejects integers which do not fit into 64 bits, which Python input accepts'
EDITS = [('src/input/input_json.rs', "JsonValue::BigInt(b) => Ok(ValidationMatch::strict(EitherFloat::F64(", "JsonValue::BigInt(b) if !strict => Ok(ValidationMatch::strict(EitherFloat::F64(")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.float_schema(strict=True))
for n in (7, 10 ** 25):
    assert v.validate_python(n) == float(n)
    assert v.validate_json(str(n)) == float(n)
'''
