PROP = 'C01'
NEEDS = 'max_digits and decimal_places together and a value whose trailing zero is behind the point'
BREAKS = 'a decimal with too many whole digits is accepted when it is written with a trailing zero (12.0 for max_digits=3, decimal_places=2)'
EDITS = [('src/validators/decimal.rs', "let normalized_whole_digits = normalized_digits.saturating_sub(normalized_decimals);", "let normalized_whole_digits = normalized_digits.saturating_sub(decimals);")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.decimal_schema(max_digits=3, decimal_places=2))
for t in ('12', '12.0', '12.00', '9.0', '99.0'):
    try: r = str(v.validate_python(t))
    except ValidationError as e: r = e.errors()[0]['type']
    w = t if t[0] == '9' and len(t) == 3 else 'decimal_whole_digits' if t != '12.00' else r
    assert r == w, (t, r)
'''
