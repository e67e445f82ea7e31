PROP = 'C30'
NEEDS = 'a plain function validator built with a config which refers back to the validator'
BREAKS = 'a plain function validator does not show its config to the garbage collector, a cycle through the config leaks'
EDITS = [('src/validators/function.rs', "impl_py_gc_traverse!(FunctionPlainValidator { func, config });", "impl_py_gc_traverse!(FunctionPlainValidator { func });")]
DEMO = r'''
import gc, weakref
from pydantic_core import SchemaValidator, core_schema as cs
class H: pass
def f(v, info): return v
def make():
    h = H()
    c = {'title': 'x', 'h': h}
    h.v = SchemaValidator(cs.with_info_plain_validator_function(f), c)
    return weakref.ref(h)
r = make()
gc.collect()
assert r() is None
'''
