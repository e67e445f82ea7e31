PROP = 'C09'
NEEDS = 'a union of models whose fields hold a nested model followed by an inner union field matched exactly'
BREAKS = 'the fields-set count of earlier nested models is lost, so the outer union picks a worse branch'
EDITS = [('src/validators/union.rs', """                            // exact match, return, restore any previous exactness
                            state.exactness = old_exactness;
                            state.fields_set_count = old_fields_set_count;
""", """                            // exact match, return, restore any previous exactness
                            state.exactness = old_exactness;
""")]
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
class Base:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class N(Base): pass
class A(Base): pass
class B(Base): pass
f = cs.model_field
dflt = lambda s: cs.with_default_schema(s, default=None)
n = cs.model_schema(N, cs.model_fields_schema({'p': f(cs.int_schema()), 'q': f(cs.int_schema())}))
a = cs.model_schema(A, cs.model_fields_schema({'n': f(n), 'u': f(cs.union_schema([cs.int_schema(), cs.str_schema()]))}))
b = cs.model_schema(B, cs.model_fields_schema({'n': f(cs.any_schema()), 'u': f(cs.any_schema()), 'w': f(cs.any_schema())}))
r = SchemaValidator(cs.union_schema([b, a])).validate_python({'n': {'p': 1, 'q': 2}, 'u': 1, 'w': 3})
assert type(r) is A, r
'''
