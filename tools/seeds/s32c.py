PROP = 'C32'
NEEDS = 'a typed-dict schema which allows extras and excludes a field from serialization'
BREAKS = 'to_python gives the excluded field as if it was an extra'
EDITS = [('src/serializers/fields.rs', "            if let Some((next_include, next_exclude)) = self.filter.key_filter(&key, include, exclude)? {\n                if let Some(field) = op_field {", "            if let Some((next_include, next_exclude)) = self.filter.key_filter(&key, include, exclude)? {\n                if let Some(field) = op_field.filter(|f| f.serializer.is_some()) {")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema(), serialization_exclude=True), 'b': cs.typed_dict_field(cs.any_schema())}, extra_behavior='allow'))
assert s.to_python({'a': 1, 'b': 2}) == {'b': 2}, s.to_python({'a': 1, 'b': 2})
'''
