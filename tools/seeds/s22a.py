PROP = 'C22'
NEEDS = 'a wrap serializer which calls its handler with an index or key, warnings asked for as errors, and an item of the wrong type'
BREAKS = 'a mismatch below the handler is not reported when the handler is called with an index or key'
EDITS = [('src/serializers/type_serializers/function.rs', """                    .to_python(value, next_include.as_ref(), next_exclude.as_ref(), &extra)?;
                extra.warnings.final_check(py)?;
                Ok(Some(v))""", """                    .to_python(value, next_include.as_ref(), next_exclude.as_ref(), &extra)?;
                Ok(Some(v))""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, PydanticSerializationError, core_schema as cs
def f(v, h): return [h(x, i) for i, x in enumerate(v)]
s = SchemaSerializer(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(f, schema=cs.int_schema())))
assert s.to_python([1, 2], warnings='error') == [1, 2]
try: r = s.to_python([1, 'x'], warnings='error')
except PydanticSerializationError: pass
else: raise AssertionError(r)
'''
