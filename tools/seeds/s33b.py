PROP = 'C33'
NEEDS = 'an is-subclass schema on a class whose metaclass __subclasscheck__ raises'
BREAKS = 'an exception raised by __subclasscheck__ is swallowed and reported as an ordinary validation error'
EDITS = [('src/validators/is_subclass.rs', "Ok(py_type) if py_type.is_subclass(self.class.bind(py))? => Ok", "Ok(py_type) if py_type.is_subclass(self.class.bind(py)).unwrap_or(false) => Ok")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
class M(type):
    def __subclasscheck__(cls, c): raise RuntimeError('no')
class A(metaclass=M): pass
v = SchemaValidator(cs.is_subclass_schema(A))
try: v.validate_python(int)
except RuntimeError: pass
else: raise AssertionError
'''
