PROP = 'C01'
NEEDS = 'multiple_of=2**63 (just above the 64-bit range) and the input -2**63'
BREAKS = 'the smallest 64-bit integer is not accepted as a multiple of 2**63'
EDITS = [('src/input/return_enums.rs', "(Int::I64(i), Int::Big(b)) => Int::Big(BigInt::from(*i) % b),", "// `b` doesn't fit in an i64, so it's further from zero than `i`\n            (Int::I64(i), Int::Big(_)) => Int::Big(BigInt::from(*i)),")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.int_schema(multiple_of=2**63))
assert v.validate_python(2**64) == 2**64
assert v.validate_python(-2**63) == -2**63
'''
