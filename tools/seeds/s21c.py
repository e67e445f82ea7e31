PROP = 'C21'
NEEDS = 'a union of dicts whose keys need the lax check, e.g. an instance of a subclass of int'
BREAKS = 'no second pass is made, so the value is serialized by inference with a warning'
EDITS = [('src/serializers/type_serializers/dict.rs', "self.key_serializer.retry_with_lax_check() || self.value_serializer.retry_with_lax_check()", "// keys are scalars\n        self.value_serializer.retry_with_lax_check()")]
DEMO = r'''
import warnings
from pydantic_core import SchemaSerializer, core_schema as cs
warnings.simplefilter('error')
class I(int): pass
s = SchemaSerializer(cs.union_schema([cs.dict_schema(cs.int_schema(), cs.none_schema()), cs.bool_schema()]))
assert s.to_python({1: None}) == {1: None}
assert s.to_python({I(1): None}) == {1: None}
assert s.to_json({I(1): None}) == b'{"1":null}'
'''
