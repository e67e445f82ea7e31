PROP = 'C25'
NEEDS = 'a callback (fallback or function) which serializes the object being serialized in a call of its own'
BREAKS = 'calls on one thread share the state of the recursion guard, so the inner call reports a circular reference'
EDITS = [('src/serializers/mod.rs', """        let mode: SerMode = mode.into();
        let warnings_mode = match warnings {
            WarningsArg::Bool(b) => b.into(),
            WarningsArg::Literal(mode) => mode,
        };
        let warnings = CollectWarnings::new(warnings_mode);
        let rec_guard = SerRecursionState::default();
        let duck_typing_ser_mode = DuckTypingSerMode::from_bool(serialize_as_any);
        let extra = self.build_extra(
            py,
            &mode,
            by_alias,
            &warnings,
            exclude_unset,
            exclude_defaults,
            exclude_none,
            round_trip,
            &rec_guard,""", """        // the state is empty again at the end of a call: make it once for each thread
        thread_local! {
            static REC_GUARD: &'static SerRecursionState = Box::leak(Box::default());
        }
        let mode: SerMode = mode.into();
        let warnings_mode = match warnings {
            WarningsArg::Bool(b) => b.into(),
            WarningsArg::Literal(mode) => mode,
        };
        let warnings = CollectWarnings::new(warnings_mode);
        let rec_guard = REC_GUARD.with(|r| *r);
        let duck_typing_ser_mode = DuckTypingSerMode::from_bool(serialize_as_any);
        let extra = self.build_extra(
            py,
            &mode,
            by_alias,
            &warnings,
            exclude_unset,
            exclude_defaults,
            exclude_none,
            round_trip,
            rec_guard,""")]
DEMO = r'''
from pydantic_core import SchemaSerializer, core_schema as cs
a = SchemaSerializer(cs.any_schema())
value = [1, 2]
s = SchemaSerializer(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: [a.to_python(v), h(v)])))
assert s.to_python([value]) == [[value], [value]]
class C: pass
value = [C()]
b = SchemaSerializer(cs.any_schema())
def fallback(x): return b.to_python(value, fallback=lambda x: 'inner', mode='json')
assert a.to_python(value, fallback=fallback, mode='json') == [['inner']]
'''
