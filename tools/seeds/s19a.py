PROP = 'C19'
NEEDS = 'a generator without a schema, nested include or exclude, and to_python in JSON mode'
BREAKS = 'to_python(mode=json) does not hand the nested include and exclude on to the items of a generator, to_json does'
EDITS = [('src/serializers/infer.rs', """                    if let Some((next_include, next_exclude)) = op_next {
                        items.push(infer_to_python(
                            &element,
                            next_include.as_ref(),
                            next_exclude.as_ref(),
                            extra,
                        )?);
                    }
""", """                    if op_next.is_some() {
                        items.push(infer_to_python(&element, None, None, extra)?);
                    }
""")]
DEMO = r'''
import json
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.any_schema())
def g(): yield from [{'a': 1, 'b': 2}, {'a': 3, 'b': 4}]
e = {0: {'a'}}
assert json.loads(s.to_json(g(), exclude=e)) == s.to_python(g(), mode='json', exclude=e) == [{'b': 2}, {'a': 3, 'b': 4}]
'''
