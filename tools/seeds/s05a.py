PROP = 'C05'
NEEDS = 'a variadic tuple with two tail items, fail_fast, and both tail items invalid'
BREAKS = 'fail_fast reports more than the first failing item in the tail section'
EDITS = [('src/validators/tuple.rs', """                    &mut NextCountingIterator::new(tail_buffer.into_iter(), index),
                    actual_length,
                    self.fail_fast,""", """                    &mut NextCountingIterator::new(tail_buffer.into_iter(), index),
                    actual_length,
                    false,""")]
DEMO = r'''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.tuple_schema([cs.str_schema(), cs.int_schema(), cs.int_schema()], variadic_item_index=0, fail_fast=True))
try:
    v.validate_python(('a', 'x', 'y'))
except ValidationError as e:
    assert [x['loc'] for x in e.errors()] == [(1,)], e
'''
