PROP = 'C20'
NEEDS = 'a dict key which is a str with a lone surrogate, serialized to JSON by inference'
BREAKS = 'the key is silently replaced by another text instead of being refused'
EDITS = [('src/serializers/infer.rs', "ObType::Str | ObType::StrSubclass => key.downcast::<PyString>()?.to_cow(),", "ObType::Str | ObType::StrSubclass => Ok(key.downcast::<PyString>()?.to_string_lossy()),")]
DEMO = r'''
from pydantic_core import to_json, PydanticSerializationError
try: r = to_json({'\ud800': 1})
except (PydanticSerializationError, UnicodeEncodeError): pass
else: raise AssertionError(r)
'''
