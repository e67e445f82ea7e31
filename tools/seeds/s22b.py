PROP = 'C22'
NEEDS = 'a wrap serializer whose inner schema has a field serializer function with an info argument'
BREAKS = 'the handler no longer knows the field, so serializing fails'
EDITS = [('src/serializers/extra.rs', "            field_name: self.field_name.as_deref(),\n            serialize_unknown: self.serialize_unknown,", "            // only the function itself belongs to the field\n            field_name: None,\n            serialize_unknown: self.serialize_unknown,")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
seen = []
def inner(m, v, info):
    seen.append(info.field_name)
    return v + 1
s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'x': cs.model_field(cs.int_schema(serialization=cs.wrap_serializer_function_ser_schema(
    lambda v, h: h(v) * 10, schema=cs.int_schema(serialization=cs.plain_serializer_function_ser_schema(inner, is_field_serializer=True, info_arg=True)))))})))
m = M(); m.x = 1; m.__pydantic_fields_set__ = {'x'}; m.__pydantic_extra__ = None; m.__pydantic_private__ = None
assert s.to_python(m) == {'x': 20} and seen == ['x'], seen
'''
