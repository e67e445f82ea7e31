PROP = 'C12'
NEEDS = 'a mutable default which is not a plain list, dict or set: a tuple with a list in it, a bytearray, an unhashable instance'
BREAKS = 'such a default is shared between results'
EDITS = [('src/validators/with_default.rs', "default_obj.bind(py).hash().is_err()", """{
                // only containers can be changed
                let default_obj = default_obj.bind(py);
                default_obj.is_instance_of::<pyo3::types::PyList>()
                    || default_obj.is_instance_of::<pyo3::types::PyDict>()
                    || default_obj.is_instance_of::<pyo3::types::PySet>()
            }""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.with_default_schema(cs.any_schema(), default=([],)))}))
v.validate_python({})['a'][0].append(1)
assert v.validate_python({}) == {'a': ([],)}
'''
