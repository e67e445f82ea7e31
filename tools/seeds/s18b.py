PROP = 'C18'
NEEDS = 'include or exclude given as a container other than a set or dict, e.g. a list or frozenset, with the key __all__'
BREAKS = '__all__ in such a container is ignored'
EDITS = [('src/serializers/filter.rs', """                Ok(Some(
                    result.is_truthy()? || contains_method.call1((intern!(py, "__all__"),))?.is_truthy()?,
                ))""", """                Ok(Some(result.is_truthy()?))""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.list_schema(cs.any_schema()))
assert s.to_python([1, 2], exclude={'__all__'}) == []
assert s.to_python([1, 2], exclude=['__all__']) == []
assert s.to_python([1, 2], include=['__all__']) == [1, 2]
'''
