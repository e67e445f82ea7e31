PROP = 'C12'
NEEDS = 'a mutable default, validate_default and an inner validator which returns its input unchanged'
BREAKS = 'a mutable default is shared between results when validate_default is set'
EDITS = [('src/validators/with_default.rs', """            default_obj.bind(py).hash().is_err()
        } else {""", """            let validated = schema_or_config_same(schema, config, intern!(py, "validate_default"))?.unwrap_or(false);
            // containers are rebuilt when the default is validated
            !validated && default_obj.bind(py).hash().is_err()
        } else {""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
f = cs.typed_dict_field
v = SchemaValidator(cs.typed_dict_schema({'a': f(cs.with_default_schema(cs.any_schema(), default=[], validate_default=True))}))
a = v.validate_python({})['a']; a.append(1)
assert v.validate_python({})['a'] == [], a
'''
