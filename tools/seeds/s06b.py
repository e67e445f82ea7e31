PROP = 'C06'
NEEDS = 'an alias with several paths, none of which is present, the first one with more than one step'
BREAKS = 'the location of a missing field names the steps of its alias path in reverse order'
EDITS = [('src/lookup_key.rs', """            for item in lookup_path.rest.iter().rev() {
                location.push(item.to_loc_item());
            }
            location.push(LocItem""", """            for item in &lookup_path.rest {
                location.push(item.to_loc_item());
            }
            location.push(LocItem""")]
NEEDS = 'a missing field whose alias path has three or more steps'
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.int_schema(), validation_alias=['a', 'b', 'c'])}))
try: v.validate_python({'a': {'b': {}}})
except ValidationError as e: assert e.errors()[0]['loc'] == ('a', 'b', 'c'), e.errors()
else: raise AssertionError
'''
