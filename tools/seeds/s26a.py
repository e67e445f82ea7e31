PROP = 'C26'
NEEDS = 'an error for a long input whose representation is cut inside a character of four bytes, at its last byte'
BREAKS = 'the search for the start of a cut character looks at three bytes only and the process aborts'
EDITS = [('src/tools.rs', "let lower_bound = index.saturating_sub(3);", "let lower_bound = index.saturating_sub(2);")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.int_schema())
for n in range(20, 32):
    try: v.validate_python('a' * n + '\U0001f600' * 30)
    except ValidationError as e: assert '\U0001f600' in str(e)
'''
