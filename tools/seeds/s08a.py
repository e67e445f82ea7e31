PROP = 'C08'
NEEDS = 'a root model whose root is a model, built through its __init__'
BREAKS = 'the inner model of a root model initialises the outer instance instead of building its own'
EDITS = [('src/validators/model.rs', """        // anymore
        let state = &mut state.rebind_extra(|extra| extra.self_instance = None);

        if self.root_model {
            let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
            let output = self.validator.validate(py, input, state)?;

            let fields_set = if input.as_python()""", """        // anymore
        let keep = self.root_model && self.frozen;
        let state = &mut state.rebind_extra(|extra| {
            if !keep {
                extra.self_instance = None;
            }
        });

        if self.root_model {
            let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
            let output = self.validator.validate(py, input, state)?;

            let fields_set = if input.as_python()""")]
NEEDS = 'a frozen root model whose root is a model, built through its __init__'
DEMO = r'''
from pydantic_core import SchemaValidator, core_schema as cs
class Base:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class In(Base): pass
class Root(Base): pass
s = cs.model_schema(Root, cs.model_schema(In, cs.model_fields_schema({'a': cs.model_field(cs.int_schema())})), root_model=True, frozen=True)
v = SchemaValidator(s)
r = Root()
v.validate_python({'a': 1}, self_instance=r)
assert type(r.root) is In and r.root is not r and r.__pydantic_fields_set__ == {'root'}, (r.root, r.__pydantic_fields_set__)
'''
