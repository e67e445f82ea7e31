PROP = 'C18'
NEEDS = 'include given as an object with __contains__ which is neither set nor dict (e.g. a frozenset) together with a nested exclude'
BREAKS = 'the nested exclude is dropped for the entries such an include selects'
EDITS = [('src/serializers/filter.rs', """            } else if let Some(contains) = check_contains(include, py_key)? {
                if contains {
                    return Ok(Some((None, next_exclude)));""", """            } else if let Some(contains) = check_contains(include, py_key)? {
                if contains {
                    return Ok(Some((None, None)));""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.dict_schema())
v = {'a': {'b': 1, 'c': 2}, 'd': 3}
r = s.to_python(v, include=frozenset({'a'}), exclude={'a': {'b'}})
assert r == {'a': {'c': 2}}, r
'''
