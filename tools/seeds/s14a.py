PROP = 'C14'
NEEDS = 'a chain of more than 16 nested objects, the seventeenth reference being a cycle'
BREAKS = 'a cycle closed exactly when the stack of the recursion guard changes its representation is missed'
EDITS = [('src/recursion_guard.rs', """                    let inserted = set.insert(v);
                    *self = Self::Set(set);
                    inserted""", """                    set.insert(v);
                    *self = Self::Set(set);
                    true""")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.definitions_schema(cs.definition_reference_schema('n'), [cs.list_schema(cs.definition_reference_schema('n'), ref='n')]))
for n in range(1, 40):
    xs = [[] for _ in range(n)]
    for a, b in zip(xs, xs[1:]): a.append(b)
    xs[-1].append(xs[0])
    try: v.validate_python(xs[0])
    except ValidationError as e:
        es = e.errors()
        assert es[0]['type'] == 'recursion_loop' and len(es[0]['loc']) == n, (n, len(es[0]['loc']))
    else: raise AssertionError(n)
'''
