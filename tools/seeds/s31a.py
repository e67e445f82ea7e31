PROP = 'C31'
NEEDS = 'an empty list given to a list schema without an items schema'
BREAKS = 'the empty input list itself is returned: the output aliases a mutable container of the input'
EDITS = [('src/validators/list.rs', "let list_copy = py_list.get_slice(0, usize::MAX);", """if py_list.is_empty() {
                        // nothing to copy
                        return Ok(py_list.clone().into_any().unbind());
                    }
                    let list_copy = py_list.get_slice(0, usize::MAX);""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
x = []
r = SchemaValidator(cs.list_schema()).validate_python(x)
assert r == [] and r is not x
'''
