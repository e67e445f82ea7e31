PROP = 'C20'
NEEDS = 'a dict with an infinite float as a key'
BREAKS = 'an infinite key is written as Infinity although the mode asks for null'
EDITS = [('src/serializers/infer.rs', """            let v = key.extract::<f64>()?;
            if (v.is_nan() || v.is_infinite()) && extra""", """            let v = key.extract::<f64>()?;
            if v.is_nan() && extra""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.any_schema(), {'ser_json_inf_nan': 'null'})
for x in ('nan', 'inf', '-inf'):
    assert s.to_json({float(x): 1}) == b'{"None":1}', s.to_json({float(x): 1})
'''
