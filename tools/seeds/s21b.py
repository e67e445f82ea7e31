PROP = 'C21'
NEEDS = 'a union with a set schema whose items match only after the lax retry (an int for a float)'
BREAKS = 'a set schema no longer asks the union to retry with lax checks'
EDITS = [('src/serializers/type_serializers/set_frozenset.rs', "self.item_serializer.retry_with_lax_check()", "false")]
DEMO = r'''
import warnings
from pydantic_core import SchemaSerializer, core_schema as cs
warnings.simplefilter('error')
s = SchemaSerializer(cs.union_schema([cs.str_schema(), cs.set_schema(cs.float_schema())]))
assert s.to_python({1}) == {1}
'''
