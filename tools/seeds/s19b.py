PROP = 'C19'
NEEDS = 'include or exclude reaching into the value of an enum member which is a container, serialized by inference'
BREAKS = 'to_json ignores include and exclude for the value of an enum member, to_python(mode=json) applies them'
EDITS = [('src/serializers/infer.rs', "infer_serialize(&v, serializer, include, exclude, extra)\n        }\n        ObType::Generator", "infer_serialize(&v, serializer, None, None, extra)\n        }\n        ObType::Generator")]
DEMO = r'''
import json
from enum import Enum
from pydantic_core import SchemaSerializer, core_schema as cs
class E(Enum): a = {'x': 1, 'y': 2}
s = SchemaSerializer(cs.any_schema())
assert json.loads(s.to_json(E.a, exclude={'x'})) == s.to_python(E.a, mode='json', exclude={'x'}) == {'y': 2}
'''
