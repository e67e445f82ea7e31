PROP = 'C24'
NEEDS = 'a location item with a dot only at its beginning or end'
BREAKS = 'the text of an error does not quote such an item, so it reads like another location'
EDITS = [('src/errors/location.rs', "Self::S(s) if s.contains('.') =>", "Self::S(s) if s.trim_matches('.').contains('.') =>")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.dict_schema(cs.str_schema(), cs.dict_schema(cs.str_schema(), cs.int_schema())))
def text(d):
    try: v.validate_python(d)
    except ValidationError as e: return str(e)
assert '`a.b`.c' in text({'a.b': {'c': 'x'}})
assert '`a.`.c' in text({'a.': {'c': 'x'}})
assert text({'a.': {'c': 'x'}}) != text({'a': {'.c': 'x'}})
'''
