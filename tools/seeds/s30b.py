PROP = 'C30'
NEEDS = 'a serialization info kept alive by the exclude object it carries'
BREAKS = 'the cycle leaks: the exclude object is not shown to the garbage collector'
EDITS = [('src/serializers/type_serializers/function.rs', """            visit.call(include)?;
        }
        if let Some(exclude) = &self.exclude {
            visit.call(exclude)?;
        }
        if let Some(context) = &self.context {""", """            visit.call(include)?;
        }
        if let Some(context) = &self.context {""")]
DEMO = r'''
import gc, weakref
from pydantic_core import SchemaSerializer, core_schema as cs
class D(dict): pass
keep = []
s = SchemaSerializer(cs.dict_schema(cs.str_schema(), cs.any_schema(), serialization=cs.plain_serializer_function_ser_schema(lambda v, i: keep.append(i) or v, info_arg=True)))
e = D(b=True)
s.to_python({'a': 1}, exclude=e)
info = keep.pop()
e['info'] = info
r = weakref.ref(e)
del e, info
gc.collect()
assert r() is None
'''
