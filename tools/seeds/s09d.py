PROP = 'C09'
NEEDS = 'a smart union of branches whose values are told apart by what they do, an instance of a subclass of time'
BREAKS = 'a branch which accepts an instance of a subclass counts as exact and is chosen over an earlier branch just as good'
EDITS = [('src/input/input_python.rs', "return Ok(ValidationMatch::strict(time.clone().into()));", "return Ok(ValidationMatch::exact(time.clone().into()));")]
DEMO = r'''
import datetime
from pydantic_core import SchemaValidator, core_schema as cs
class T(datetime.time): pass
mark = lambda n, s: cs.no_info_after_validator_function(lambda v: n, s)
v = SchemaValidator(cs.union_schema([mark('any', cs.any_schema()), mark('time', cs.time_schema())]))
assert v.validate_python(datetime.time(1)) == 'time'
assert v.validate_python(T(1)) == 'any', v.validate_python(T(1))
'''
