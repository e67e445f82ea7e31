PROP = 'C29'
NEEDS = 'a subclass instance serialized by a union one of whose choices is a model within a default schema'
BREAKS = 'a default schema no longer asks the union to retry with lax checks'
EDITS = [('src/serializers/type_serializers/with_default.rs', "self.serializer.retry_with_lax_check()", "false")]
DEMO = r'''
import warnings
from pydantic_core import SchemaSerializer, core_schema as cs
warnings.simplefilter('error')
class A:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class B(A): pass
m = cs.model_schema(A, cs.model_fields_schema({'x': cs.model_field(cs.int_schema())}))
b = B()
object.__setattr__(b, '__dict__', {'x': 1, 'y': 2})
object.__setattr__(b, '__pydantic_fields_set__', {'x'})
object.__setattr__(b, '__pydantic_extra__', None)
plain = SchemaSerializer(cs.union_schema([cs.str_schema(), m])).to_python(b)
assert SchemaSerializer(cs.union_schema([cs.str_schema(), cs.with_default_schema(m, default=None)])).to_python(b) == plain
'''
