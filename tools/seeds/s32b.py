PROP = 'C32'
NEEDS = 'a model with extras which have a schema of their own, an extra that is None, exclude_none and to_json'
BREAKS = 'to_json keeps extras which are None'
EDITS = [('src/serializers/fields.rs', """                if extra.exclude_none && value.is_none() {
                    continue;
                }
                let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                if let Some((next_include, next_exclude)) = filter {
                    let output_key""", """                // what an extra schema makes of None is up to that schema
                if extra.exclude_none && value.is_none() && self.extra_serializer.is_none() {
                    continue;
                }
                let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                if let Some((next_include, next_exclude)) = filter {
                    let output_key""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'x': cs.model_field(cs.int_schema())}, extra_behavior='allow', extras_schema=cs.nullable_schema(cs.int_schema())), extra_behavior='allow'))
m = M(); m.x = 1; m.__pydantic_fields_set__ = {'x'}; m.__pydantic_extra__ = {'e': None, 'f': 2}; m.__pydantic_private__ = None
assert s.to_json(m, exclude_none=True) == b'{"x":1,"f":2}'
'''
