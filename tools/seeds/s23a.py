PROP = 'C23'
NEEDS = 'hexadecimal bytes, JSON mode of to_python and a byte below 16'
BREAKS = 'bytes below 0x10 become one hexadecimal digit, so the text does not validate back'
EDITS = [('src/serializers/config.rs', """acc + &format!("{b:02x}")""", """acc + &format!("{b:x}")""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, SchemaValidator, core_schema as cs
c = {'ser_json_bytes': 'hex', 'val_json_bytes': 'hex'}
s, v = SchemaSerializer(cs.bytes_schema(), c), SchemaValidator(cs.bytes_schema(), c)
for b in (b'\xff', b'\x01\x02', b'a\x00'):
    assert v.validate_python(s.to_python(b, mode='json')) == b
    assert v.validate_json(s.to_json(b)) == b
'''
