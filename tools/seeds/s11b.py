PROP = 'C11'
NEEDS = 'a literal with two unhashable expected values, the first of which cannot be compared with the input'
BREAKS = 'an expected value whose __eq__ raises ends the search, so that a later equal value is not found'
EDITS = [('src/validators/literal.rs', """                if k.bind(py).eq(py_input).unwrap_or(false) {
                    return Ok(Some((input, &self.values[*id])));
                }""", """                match k.bind(py).eq(py_input) {
                    Ok(true) => return Ok(Some((input, &self.values[*id]))),
                    Ok(false) => {}
                    Err(_) => break,
                }""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
class Bad:
    __hash__ = None
    def __eq__(self, o): raise TypeError
v = SchemaValidator(cs.literal_schema([Bad(), [1]]))
assert v.validate_python([1]) == [1]
'''
