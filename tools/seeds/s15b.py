PROP = 'C15'
NEEDS = 'a generator schema in a field after another one, whose item validator reads info.data when the items are pulled'
BREAKS = 'info.data is missing for lazily validated items'
EDITS = [('src/validators/generator.rs', "data: extra.data.as_ref().map(|d| d.clone().into()),", "// the data is only complete while the fields are validated\n            data: None,")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
seen = []
def f(v, info):
    seen.append(info.data)
    return v
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema()), 'b': cs.typed_dict_field(cs.generator_schema(cs.with_info_plain_validator_function(f)))}))
list(v.validate_python({'a': 1, 'b': [1, 2]})['b'])
assert seen[0] is not None and seen[0]['a'] == 1, seen
'''
