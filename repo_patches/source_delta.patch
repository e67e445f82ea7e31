From 6ef5aa1dbf38a268e2c223a6d01ca5de1b41723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:25 +0000
Subject: [PATCH 01/80] fix: index of tail items after a variadic tuple section
 in error locations

---
 src/validators/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..7d4a878 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -170,7 +170,7 @@ impl TupleValidator {
 
                 // Iterate over all remaining collection items, validating as items "leave" the buffer
                 for (buffer_item_index, input_item) in collection_iter {
-                    index = buffer_item_index;
+                    index = buffer_item_index + 1;
                     // This `unwrap` is safe because you can only get here
                     // if there were at least `n_tail_validators` (> 0) items in the iterator
                     let buffered_item = tail_buffer.pop_front().unwrap();
-- 
2.43.0


From 75b722b47ae2f76c64ce5bf83c65d5fe0553b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 02/80] fix: keep by_alias, by_name, field_name and the fields
 set count through wrap validators and generators

---
 src/validators/function.rs  |  4 +++-
 src/validators/generator.rs | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..ddb0960 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -380,7 +380,9 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        state.exactness = handler.borrow_mut().validator.exactness;
+        let handler = handler.borrow();
+        state.exactness = handler.validator.exactness;
+        state.fields_set_count = handler.validator.fields_set_count;
         result
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..d228ff6 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -221,10 +221,14 @@ pub struct InternalValidator {
     data: Option<Py<PyDict>>,
     strict: Option<bool>,
     from_attributes: Option<bool>,
+    field_name: Option<Py<PyString>>,
     context: Option<PyObject>,
     self_instance: Option<PyObject>,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
+    pub(crate) fields_set_count: Option<usize>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
@@ -252,10 +256,14 @@ impl InternalValidator {
             data: extra.data.as_ref().map(|d| d.clone().into()),
             strict: extra.strict,
             from_attributes: extra.from_attributes,
+            field_name: extra.field_name.clone().map(Bound::unbind),
             context: extra.context.map(|d| d.clone().unbind()),
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
+            fields_set_count: state.fields_set_count,
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
@@ -280,8 +288,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
@@ -314,15 +322,16 @@ impl InternalValidator {
             data: self.data.as_ref().map(|data| data.bind(py).clone()),
             strict: self.strict,
             from_attributes: self.from_attributes,
-            field_name: None,
+            field_name: self.field_name.as_ref().map(|name| name.bind(py).clone()),
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -335,6 +344,7 @@ impl InternalValidator {
             )
         });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 }
-- 
2.43.0


From ceb503c129bf314e659bee2e32a854d60d78ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 03/80] fix: release the recursion guard entry when the depth
 limit is hit

---
 src/recursion_guard.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..470a1e0 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // no guard is created to release this entry, so release it here
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
@@ -101,10 +103,13 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        // nothing is counted when the limit is hit, as there will be no matching `decr_depth`
+        if self.depth < RECURSION_GUARD_LIMIT {
+            self.depth += 1;
+            false
+        } else {
+            true
+        }
     }
 
     #[must_use]
-- 
2.43.0


From b50b989f137ce42f6fd2ca8c378a5743781a9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 04/80] fix: literal and enum lookup of ints beyond i64

---
 src/validators/literal.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3da5e9d..23de441 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -114,9 +114,11 @@ impl<T: Debug> LiteralLookup<T> {
         }
         if let Some(expected_ints) = &self.expected_int {
             if let Ok(either_int) = input.exact_int() {
-                let int = either_int.into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some((input, &self.values[*id])));
+                // an int which doesn't fit in an i64 can't be in `expected_ints`
+                if let Ok(int) = either_int.into_i64(py) {
+                    if let Some(id) = expected_ints.get(&int) {
+                        return Ok(Some((input, &self.values[*id])));
+                    }
                 }
             }
         }
@@ -192,9 +194,11 @@ impl<T: Debug> LiteralLookup<T> {
     ) -> ValResult<Option<&T>> {
         if let Some(expected_ints) = &self.expected_int {
             if let Ok(either_int) = input.validate_int(strict) {
-                let int = either_int.into_inner().into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some(&self.values[*id]));
+                // an int which doesn't fit in an i64 can't be in `expected_ints`
+                if let Ok(int) = either_int.into_inner().into_i64(py) {
+                    if let Some(id) = expected_ints.get(&int) {
+                        return Ok(Some(&self.values[*id]));
+                    }
                 }
             }
         }
-- 
2.43.0


From 395ed51b84a863fdf14c7a8745f1cb7d5577143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 05/80] fix: panics for int multiple_of 0 and -1

---
 src/input/return_enums.rs | 3 ++-
 src/validators/int.rs     | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 6ac3824..724fca4 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -707,7 +707,8 @@ impl Rem for &Int {
 
     fn rem(self, rhs: Self) -> Self::Output {
         match (self, rhs) {
-            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1 % i2),
+            // `wrapping_rem` as `i64::MIN % -1` overflows, the result is 0
+            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1.wrapping_rem(*i2)),
             (Int::Big(b1), Int::Big(b2)) => Int::Big(b1 % b2),
             (Int::I64(i), Int::Big(b)) => Int::Big(BigInt::from(*i) % b),
             (Int::Big(b), Int::I64(i)) => Int::Big(b % BigInt::from(*i)),
diff --git a/src/validators/int.rs b/src/validators/int.rs
index 28d068c..47d66f9 100644
--- a/src/validators/int.rs
+++ b/src/validators/int.rs
@@ -90,9 +90,13 @@ pub struct ConstrainedIntValidator {
 impl ConstrainedIntValidator {
     fn build(schema: &Bound<'_, PyDict>, config: Option<&Bound<'_, PyDict>>) -> PyResult<CombinedValidator> {
         let py = schema.py();
+        let multiple_of = validate_as_int(schema, intern!(py, "multiple_of"))?;
+        if multiple_of == Some(Int::I64(0)) {
+            return Err(PyValueError::new_err("'multiple_of' must not be zero"));
+        }
         Ok(Self {
             strict: is_strict(schema, config)?,
-            multiple_of: validate_as_int(schema, intern!(py, "multiple_of"))?,
+            multiple_of,
             le: validate_as_int(schema, intern!(py, "le"))?,
             lt: validate_as_int(schema, intern!(py, "lt"))?,
             ge: validate_as_int(schema, intern!(py, "ge"))?,
-- 
2.43.0


From 67af538c1765b4f77642a56001bfb6f170bef219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 06/80] fix: complex validation of large ints and runtime
 strict

---
 src/input/input_json.rs   | 11 +++++++++++
 src/input/input_python.rs |  8 ++++----
 src/validators/complex.rs |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/input/input_json.rs b/src/input/input_json.rs
index 6828f59..8f45376 100644
--- a/src/input/input_json.rs
+++ b/src/input/input_json.rs
@@ -363,6 +363,17 @@ impl<'py, 'data> Input<'py> for JsonValue<'data> {
                     Err(ValError::new(ErrorTypeDefaults::ComplexStrParsing, self))
                 }
             }
+            JsonValue::BigInt(b) => {
+                if strict {
+                    Err(ValError::new(ErrorTypeDefaults::ComplexStrParsing, self))
+                } else {
+                    match b.to_f64() {
+                        // an int too large for a float isn't a valid complex, as in Python
+                        Some(real) if real.is_finite() => Ok(ValidationMatch::lax(EitherComplex::Complex([real, 0.0]))),
+                        _ => Err(ValError::new(ErrorTypeDefaults::ComplexType, self)),
+                    }
+                }
+            }
             _ => Err(ValError::new(ErrorTypeDefaults::ComplexType, self)),
         }
     }
diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..3587a7d 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -657,10 +657,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 0.0,
             ])));
         } else if self.is_exact_instance_of::<PyInt>() {
-            return Ok(ValidationMatch::lax(EitherComplex::Complex([
-                self.extract::<i64>().unwrap() as f64,
-                0.0,
-            ])));
+            // an int too large for a float isn't a valid complex, as with `complex(10**400)` in Python
+            if let Ok(real) = self.extract::<f64>() {
+                return Ok(ValidationMatch::lax(EitherComplex::Complex([real, 0.0])));
+            }
         }
         Err(ValError::new(ErrorTypeDefaults::ComplexType, self))
     }
diff --git a/src/validators/complex.rs b/src/validators/complex.rs
index 98ffc7d..a0341a1 100644
--- a/src/validators/complex.rs
+++ b/src/validators/complex.rs
@@ -45,7 +45,7 @@ impl Validator for ComplexValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        let res = input.validate_complex(self.strict, py)?.unpack(state);
+        let res = input.validate_complex(state.strict_or(self.strict), py)?.unpack(state);
         Ok(res.into_pyobject(py)?.into())
     }
 
-- 
2.43.0


From 6a0ba6dc7ed10b8a5f0139d75b3ab14494f29748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 07/80] fix: union choices that fail or omit must not change
 the exactness seen by other choices

---
 src/validators/lax_or_strict.rs |  6 +++++-
 src/validators/union.rs         | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index bc35465..4c5f242 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -68,10 +68,14 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
+                let old_exactness = state.exactness;
+                let old_fields_set_count = state.fields_set_count;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
-                // this is now known to be not strict
+                // this is now known to be not strict, discard what the failed strict validator left behind
+                state.exactness = old_exactness;
+                state.fields_set_count = old_fields_set_count;
                 state.floor_exactness(Exactness::Lax);
             }
             self.lax_validator.validate(py, input, state)
diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..f9865d3 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -161,7 +161,12 @@ impl UnionValidator {
                         errors.push(choice, label.as_deref(), lines);
                     }
                 }
-                otherwise => return otherwise,
+                otherwise => {
+                    // not a line error (e.g. `PydanticOmit`), restore any previous exactness and fields set data
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    return otherwise;
+                }
             }
         }
 
@@ -187,11 +192,18 @@ impl UnionValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
+        let old_exactness = state.exactness;
+        let old_fields_set_count = state.fields_set_count;
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
         for (validator, label) in &self.choices {
             match validator.validate(py, input, state) {
-                Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
+                Err(ValError::LineErrors(lines)) => {
+                    // the failed choice must not affect the exactness or fields set count of the next ones
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    errors.push(validator, label.as_deref(), lines);
+                }
                 otherwise => return otherwise,
             }
         }
-- 
2.43.0


From 8be39d6ed62b010436414a0c78f765b45e49b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 08/80] fix: schema errors instead of panics for malformed
 schemas and titles

---
 src/errors/validation_exception.rs        |  2 +-
 src/serializers/type_serializers/other.rs |  4 ++--
 src/serializers/type_serializers/tuple.rs |  4 ++++
 src/validators/custom_error.rs            |  4 +++-
 src/validators/datetime.rs                | 18 ++++++++++----
 src/validators/function.rs                |  3 ++-
 src/validators/tuple.rs                   |  6 +++--
 src/validators/uuid.rs                    | 29 +++++++++++++----------
 8 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 16e89eb..5f8fe78 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -100,7 +100,7 @@ impl ValidationError {
         } else {
             let count = self.line_errors.len();
             let plural = if count == 1 { "" } else { "s" };
-            let title: &str = self.title.extract(py).unwrap();
+            let title = self.title.bind(py);
             format!("{count} validation error{plural} for {title}\n{line_errors}")
         }
     }
diff --git a/src/serializers/type_serializers/other.rs b/src/serializers/type_serializers/other.rs
index 8ca67f8..bcb9346 100644
--- a/src/serializers/type_serializers/other.rs
+++ b/src/serializers/type_serializers/other.rs
@@ -2,7 +2,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList};
 
-use crate::build_tools::py_schema_err;
+use crate::build_tools::{py_schema_err, py_schema_error_type};
 use crate::definitions::DefinitionsBuilder;
 use crate::tools::SchemaDict;
 
@@ -23,7 +23,7 @@ impl BuildSerializer for ChainBuilder {
             .get_as_req::<Bound<'_, PyList>>(intern!(schema.py(), "steps"))?
             .iter()
             .last()
-            .unwrap()
+            .ok_or_else(|| py_schema_error_type!("One or more steps are required for a chain validator"))?
             .downcast_into()?;
         CombinedSerializer::build(&last_schema, config, definitions)
     }
diff --git a/src/serializers/type_serializers/tuple.rs b/src/serializers/type_serializers/tuple.rs
index e6bc6d2..1ca6df7 100644
--- a/src/serializers/type_serializers/tuple.rs
+++ b/src/serializers/type_serializers/tuple.rs
@@ -6,6 +6,7 @@ use std::iter;
 
 use serde::ser::SerializeSeq;
 
+use crate::build_tools::py_schema_err;
 use crate::definitions::DefinitionsBuilder;
 use crate::serializers::extra::SerCheck;
 use crate::serializers::type_serializers::any::AnySerializer;
@@ -43,6 +44,9 @@ impl BuildSerializer for TupleSerializer {
         let mut serializer_names = serializers.iter().map(TypeSerializer::get_name).collect::<Vec<_>>();
         let variadic_item_index: Option<usize> = schema.get_as(intern!(py, "variadic_item_index"))?;
         if let Some(variadic_item_index) = variadic_item_index {
+            if variadic_item_index >= serializers.len() {
+                return py_schema_err!("`variadic_item_index` is out of range of `items_schema`");
+            }
             serializer_names.insert(variadic_item_index + 1, "...");
         }
         let name = format!("tuple[{}]", serializer_names.join(", "));
diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 6759f77..b2ed20c 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -72,7 +72,9 @@ impl BuildValidator for CustomErrorValidator {
         config: Option<&Bound<'_, PyDict>>,
         definitions: &mut DefinitionsBuilder<CombinedValidator>,
     ) -> PyResult<CombinedValidator> {
-        let custom_error = CustomError::build(schema, config, definitions)?.unwrap();
+        let Some(custom_error) = CustomError::build(schema, config, definitions)? else {
+            return py_schema_err!("`custom_error_type` is required for a `custom-error` schema");
+        };
         let schema = schema.get_as_req(intern!(schema.py(), "schema"))?;
         let validator = Box::new(build_validator(&schema, config, definitions)?);
         let name = format!("{}[{}]", Self::EXPECTED_TYPE, validator.get_name());
diff --git a/src/validators/datetime.rs b/src/validators/datetime.rs
index d82a3dd..ce69335 100644
--- a/src/validators/datetime.rs
+++ b/src/validators/datetime.rs
@@ -32,7 +32,9 @@ pub(crate) fn extract_microseconds_precision(
     schema_or_config_same(schema, config, intern!(schema.py(), "microseconds_precision"))?
         .map_or(
             Ok(speedate::MicrosecondsPrecisionOverflowBehavior::Truncate),
-            |v: Bound<'_, PyString>| speedate::MicrosecondsPrecisionOverflowBehavior::try_from(v.to_str().unwrap()),
+            |v: Bound<'_, PyString>| {
+                speedate::MicrosecondsPrecisionOverflowBehavior::try_from(v.to_string_lossy().as_ref())
+            },
         )
         .map_err(|_| {
             py_schema_error_type!("Invalid `microseconds_precision`, must be one of \"truncate\" or \"error\"")
@@ -269,10 +271,16 @@ impl NowConstraint {
     pub fn from_py(schema: &Bound<'_, PyDict>) -> PyResult<Option<Self>> {
         let py = schema.py();
         match schema.get_as::<Bound<'_, PyString>>(intern!(py, "now_op"))? {
-            Some(op) => Ok(Some(Self {
-                op: NowOp::from_str(op.to_str()?)?,
-                utc_offset: schema.get_as(intern!(py, "now_utc_offset"))?,
-            })),
+            Some(op) => {
+                let utc_offset: Option<i32> = schema.get_as(intern!(py, "now_utc_offset"))?;
+                if utc_offset.is_some_and(|offset| offset.unsigned_abs() >= 86_400) {
+                    return py_schema_err!("`now_utc_offset` must be strictly between -86400 and 86400 seconds");
+                }
+                Ok(Some(Self {
+                    op: NowOp::from_str(op.to_str()?)?,
+                    utc_offset,
+                }))
+            }
             None => Ok(None),
         }
     }
diff --git a/src/validators/function.rs b/src/validators/function.rs
index ddb0960..4afcac3 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -5,6 +5,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyAny, PyDict, PyString};
 use pyo3::{intern, PyTraverseError, PyVisit};
 
+use crate::build_tools::py_schema_err;
 use crate::errors::{
     ErrorType, PydanticCustomError, PydanticKnownError, PydanticOmit, ToErrorValue, ValError, ValResult,
     ValidationError,
@@ -34,7 +35,7 @@ fn destructure_function_schema(schema: &Bound<'_, PyDict>) -> PyResult<FunctionI
     let info_arg = match func_type.to_str()? {
         "with-info" => true,
         "no-info" => false,
-        _ => unreachable!(),
+        other => return py_schema_err!("Invalid function type {:?}, expected `with-info` or `no-info`", other),
     };
     let field_name = func_dict.get_as(intern!(schema.py(), "field_name"))?;
     Ok(FunctionInfo {
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 7d4a878..0985e5a 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -4,7 +4,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyTuple};
 
-use crate::build_tools::is_strict;
+use crate::build_tools::{is_strict, py_schema_err};
 use crate::errors::{py_err_string, ErrorType, ErrorTypeDefaults, ValError, ValLineError, ValResult};
 use crate::input::ConsumeIterator;
 use crate::input::{BorrowInput, Input, ValidatedTuple};
@@ -39,8 +39,10 @@ impl BuildValidator for TupleValidator {
 
         let mut validator_names = validators.iter().map(Validator::get_name).collect::<Vec<_>>();
         let variadic_item_index: Option<usize> = schema.get_as(intern!(py, "variadic_item_index"))?;
-        // FIXME add friendly schema error if item out of bounds
         if let Some(variadic_item_index) = variadic_item_index {
+            if variadic_item_index >= validators.len() {
+                return py_schema_err!("`variadic_item_index` is out of range of `items_schema`");
+            }
             validator_names.insert(variadic_item_index + 1, "...");
         }
         let name = format!("tuple[{}]", validator_names.join(", "));
diff --git a/src/validators/uuid.rs b/src/validators/uuid.rs
index 9ad4eb3..8ed088c 100644
--- a/src/validators/uuid.rs
+++ b/src/validators/uuid.rs
@@ -7,7 +7,7 @@ use pyo3::types::{PyDict, PyType};
 use uuid::Uuid;
 use uuid::Variant;
 
-use crate::build_tools::is_strict;
+use crate::build_tools::{is_strict, py_schema_err};
 use crate::errors::{ErrorType, ErrorTypeDefaults, ValError, ValResult};
 use crate::input::input_as_python_instance;
 use crate::input::Input;
@@ -53,17 +53,19 @@ impl From<Version> for usize {
     }
 }
 
-impl From<u8> for Version {
-    fn from(u: u8) -> Self {
+impl TryFrom<u8> for Version {
+    type Error = PyErr;
+
+    fn try_from(u: u8) -> PyResult<Self> {
         match u {
-            1 => Version::UUIDv1,
-            3 => Version::UUIDv3,
-            4 => Version::UUIDv4,
-            5 => Version::UUIDv5,
-            6 => Version::UUIDv6,
-            7 => Version::UUIDv7,
-            8 => Version::UUIDv8,
-            _ => unreachable!(),
+            1 => Ok(Version::UUIDv1),
+            3 => Ok(Version::UUIDv3),
+            4 => Ok(Version::UUIDv4),
+            5 => Ok(Version::UUIDv5),
+            6 => Ok(Version::UUIDv6),
+            7 => Ok(Version::UUIDv7),
+            8 => Ok(Version::UUIDv8),
+            _ => py_schema_err!("Invalid UUID version: {}", u),
         }
     }
 }
@@ -84,7 +86,10 @@ impl BuildValidator for UuidValidator {
     ) -> PyResult<CombinedValidator> {
         let py = schema.py();
         // Note(lig): let's keep this conversion through the Version enum just for the sake of validation
-        let version = schema.get_as::<u8>(intern!(py, "version"))?.map(Version::from);
+        let version = schema
+            .get_as::<u8>(intern!(py, "version"))?
+            .map(Version::try_from)
+            .transpose()?;
         Ok(Self {
             strict: is_strict(schema, config)?,
             version: version.map(usize::from),
-- 
2.43.0


From cfdf0db417bfb7b70519a5b271bc1ccf63436ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:54 +0000
Subject: [PATCH 09/80] fix: exact decimal multiple_of, max_digits and
 decimal_places beyond the context precision

---
 src/validators/decimal.rs | 75 ++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/validators/decimal.rs b/src/validators/decimal.rs
index a2a9e0b..70d0052 100644
--- a/src/validators/decimal.rs
+++ b/src/validators/decimal.rs
@@ -1,7 +1,8 @@
+use num_bigint::BigUint;
 use pyo3::exceptions::{PyTypeError, PyValueError};
 use pyo3::intern;
 use pyo3::sync::GILOnceCell;
-use pyo3::types::{IntoPyDict, PyDict, PyString, PyTuple, PyType};
+use pyo3::types::{IntoPyDict, PyDict, PyString, PyType};
 use pyo3::{prelude::*, PyTypeInfo};
 
 use crate::build_tools::{is_strict, schema_or_config_same};
@@ -76,12 +77,23 @@ impl BuildValidator for DecimalValidator {
             ));
         }
 
+        let multiple_of = validate_as_decimal(py, schema, intern!(py, "multiple_of"))?;
+        if let Some(multiple_of) = &multiple_of {
+            let multiple_of = multiple_of.bind(py);
+            let is_finite: bool = multiple_of.call_method0(intern!(py, "is_finite"))?.extract()?;
+            if !is_finite || !multiple_of.is_truthy()? {
+                return Err(PyValueError::new_err(
+                    "'multiple_of' must be a finite number other than zero",
+                ));
+            }
+        }
+
         Ok(Self {
             strict: is_strict(schema, config)?,
             allow_inf_nan,
             check_digits: decimal_places.is_some() || max_digits.is_some(),
             decimal_places,
-            multiple_of: validate_as_decimal(py, schema, intern!(py, "multiple_of"))?,
+            multiple_of,
             le: validate_as_decimal(py, schema, intern!(py, "le"))?,
             lt: validate_as_decimal(py, schema, intern!(py, "lt"))?,
             ge: validate_as_decimal(py, schema, intern!(py, "ge"))?,
@@ -100,21 +112,52 @@ impl_py_gc_traverse!(DecimalValidator {
     gt
 });
 
-fn extract_decimal_digits_info(decimal: &Bound<'_, PyAny>, normalized: bool) -> ValResult<(u64, u64)> {
+/// Get the coefficient digits and the exponent of a finite decimal
+fn decimal_parts(decimal: &Bound<'_, PyAny>) -> PyResult<(Vec<u8>, i64)> {
     let py = decimal.py();
-    let mut normalized_decimal: Option<Bound<'_, PyAny>> = None;
-    if normalized {
-        normalized_decimal = decimal.call_method0(intern!(py, "normalize")).ok();
+    let (_, digits, exponent): (Bound<'_, PyAny>, Vec<u8>, i64) =
+        decimal.call_method0(intern!(py, "as_tuple"))?.extract()?;
+    Ok((digits, exponent))
+}
+
+/// Whether a finite decimal is an exact multiple of another one, whatever their magnitude; this can't be left to
+/// decimal's own division, it is limited to the precision of the current decimal context
+fn is_multiple_of(decimal: &Bound<'_, PyAny>, multiple_of: &Bound<'_, PyAny>) -> PyResult<bool> {
+    let (value_digits, value_exponent) = decimal_parts(decimal)?;
+    let (factor_digits, factor_exponent) = decimal_parts(multiple_of)?;
+    let value_len = value_digits.len() as u64;
+    let value = BigUint::from_radix_be(&value_digits, 10).unwrap_or_default();
+    let factor = BigUint::from_radix_be(&factor_digits, 10).unwrap_or_default();
+    if value == BigUint::ZERO || factor == BigUint::ZERO {
+        return Ok(value == BigUint::ZERO);
     }
-    let (_, digit_tuple, exponent): (Bound<'_, PyAny>, Bound<'_, PyTuple>, Bound<'_, PyAny>) = normalized_decimal
-        .as_ref()
-        .unwrap_or(decimal)
-        .call_method0(intern!(py, "as_tuple"))?
-        .extract()?;
+    let shift = value_exponent - factor_exponent;
+    let remainder = if shift >= 0 {
+        let power = BigUint::from(10u8).modpow(&BigUint::from(shift.unsigned_abs()), &factor);
+        value * power % factor
+    } else {
+        match u32::try_from(shift.unsigned_abs()) {
+            Ok(shift) if u64::from(shift) < value_len => value % (factor * BigUint::from(10u8).pow(shift)),
+            _ => return Ok(false),
+        }
+    };
+    Ok(remainder == BigUint::ZERO)
+}
 
+fn extract_decimal_digits_info(decimal: &Bound<'_, PyAny>, normalized: bool) -> ValResult<(u64, u64)> {
     // finite values have numeric exponent, we checked is_finite above
-    let exponent: i64 = exponent.extract()?;
-    let mut digits: u64 = u64::try_from(digit_tuple.len()).map_err(|e| ValError::InternalErr(e.into()))?;
+    let (mut digit_list, mut exponent) = decimal_parts(decimal)?;
+    if normalized {
+        // `Decimal.normalize` would also round to the precision of the current decimal context
+        while digit_list.len() > 1 && digit_list.last() == Some(&0) {
+            digit_list.pop();
+            exponent += 1;
+        }
+        if digit_list == [0] {
+            exponent = 0;
+        }
+    }
+    let mut digits: u64 = u64::try_from(digit_list.len()).map_err(|e| ValError::InternalErr(e.into()))?;
     let decimals;
     if exponent >= 0 {
         // A positive exponent adds that many trailing zeros.
@@ -199,10 +242,8 @@ impl Validator for DecimalValidator {
         }
 
         if let Some(multiple_of) = &self.multiple_of {
-            // fraction = (decimal / multiple_of) % 1
-            let fraction = (decimal.div(multiple_of)?).rem(1)?;
-            let zero = 0u8.into_pyobject(py)?;
-            if !fraction.eq(&zero)? {
+            let is_finite: bool = decimal.call_method0(intern!(py, "is_finite"))?.extract()?;
+            if !is_finite || !is_multiple_of(&decimal, multiple_of.bind(py))? {
                 return Err(ValError::new(
                     ErrorType::MultipleOf {
                         multiple_of: multiple_of.to_string().into(),
-- 
2.43.0


From 9c3f818a04b59f289fac1d9dc1ee9882fa1993e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:54 +0000
Subject: [PATCH 10/80] fix: reject int strings like '0-1' and '0__1'

---
 src/input/shared.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/input/shared.rs b/src/input/shared.rs
index 1a90b41..83e2af3 100644
--- a/src/input/shared.rs
+++ b/src/input/shared.rs
@@ -177,17 +177,20 @@ fn strip_leading_zeros(s: &str) -> Option<&str> {
     match char_iter.next() {
         // if we get a leading zero we continue
         Some((_, '0')) => (),
-        // if we get another digit or unary minus we return the whole string
-        Some((_, c)) if ('1'..='9').contains(&c) || c == '-' => return Some(s),
+        // if we get another digit we return the whole string
+        Some((_, c)) if ('1'..='9').contains(&c) => return Some(s),
         // anything else is invalid, we return None
         _ => return None,
     }
+    let mut after_underscore = false;
     for (i, c) in char_iter {
         match c {
+            // consecutive underscores are invalid, see `strip_underscores`
+            '_' if after_underscore => return None,
             // continue on more leading zeros or if we get an underscore we continue - we're "within the number"
-            '0' | '_' => (),
-            // any other digit or unary minus we return the rest of the string
-            '1'..='9' | '-' => return Some(&s[i..]),
+            '0' | '_' => after_underscore = c == '_',
+            // any other digit we return the rest of the string
+            '1'..='9' => return Some(&s[i..]),
             // if we get a dot we return the rest of the string but include the last zero
             '.' => return Some(&s[(i - 1)..]),
             // anything else is invalid, we return None
-- 
2.43.0


From cd41b06d761fff47403f1993c4fcc3b08bb8b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:54 +0000
Subject: [PATCH 11/80] fix: int validation of an enum member must yield an int

---
 src/input/input_python.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 3587a7d..bbdcc69 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -271,8 +271,9 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     decimal_as_int(self, &decimal.into_inner())
                 } else if let Ok(float) = self.extract::<f64>() {
                     float_as_int(self, float)
-                } else if let Some(enum_val) = maybe_as_enum(self) {
-                    Ok(EitherInt::Py(enum_val))
+                } else if let Some(enum_val) = maybe_as_enum(self).filter(|v| v.is_instance_of::<PyInt>()) {
+                    // the value of an enum member can be anything, only an int is a valid int
+                    EitherInt::upcast(&enum_val)
                 } else {
                     break 'lax;
                 }
-- 
2.43.0


From f514c99e20eb7e1898f426762ea0a5a653e9c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 12/80] fix: fractional part of negative and millisecond float
 timestamps

---
 src/input/datetime.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index e1b3b37..f8a8b6c 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -422,10 +422,18 @@ macro_rules! nan_check {
 
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
-    let microseconds = timestamp.fract().abs() * 1_000_000.0;
+    // the integer part is rounded down, so the fraction to add to it is positive for negative timestamps too
+    let floor = timestamp.floor();
+    // as in speedate, timestamps beyond this are in milliseconds
+    let microseconds_per_unit = if floor.abs() > 20_000_000_000.0 {
+        1_000.0
+    } else {
+        1_000_000.0
+    };
+    let microseconds = (timestamp - floor) * microseconds_per_unit;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, timestamp.floor() as i64, microseconds.round() as u32)
+    int_as_datetime(input, floor as i64, microseconds.round() as u32)
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From 98fa7b9610235845961854ff9ef9958c7f16f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 13/80] fix: timedelta from numbers and strings outside of the
 range of timedelta

---
 src/input/datetime.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index f8a8b6c..4bb837e 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -522,18 +522,30 @@ pub fn bytes_as_timedelta<'py>(
             unix_timestamp_offset: Some(0),
         },
     ) {
-        Ok(dt) => Ok(dt.into()),
+        Ok(duration) => Ok(check_python_range(input, duration)?.into()),
         Err(err) => Err(map_timedelta_err(input, err)),
     }
 }
 
+/// `timedelta.min` is exactly -999999999 days, while `timedelta.max` and `Duration` go one day further (less 1us)
+fn check_python_range(input: impl ToErrorValue, duration: Duration) -> ValResult<Duration> {
+    if !duration.positive && duration.day == 999_999_999 && (duration.second > 0 || duration.microsecond > 0) {
+        Err(map_timedelta_err(input, ParseError::DurationDaysTooLarge))
+    } else {
+        Ok(duration)
+    }
+}
+
 pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResult<Duration> {
     let positive = total_seconds >= 0;
     let total_seconds = total_seconds.unsigned_abs();
-    // we can safely unwrap here since we've guaranteed seconds and microseconds can't cause overflow
-    let days = (total_seconds / 86400) as u32;
+    // too many days for a u32 are also too many days for a `Duration`, `Duration::new` gives the error
+    let days = u32::try_from(total_seconds / 86400).unwrap_or(u32::MAX);
     let seconds = (total_seconds % 86400) as u32;
-    Duration::new(positive, days, seconds, 0).map_err(|err| map_timedelta_err(input, err))
+    match Duration::new(positive, days, seconds, 0) {
+        Ok(duration) => check_python_range(input, duration),
+        Err(err) => Err(map_timedelta_err(input, err)),
+    }
 }
 
 pub fn float_as_duration(input: impl ToErrorValue, total_seconds: f64) -> ValResult<Duration> {
@@ -543,8 +555,10 @@ pub fn float_as_duration(input: impl ToErrorValue, total_seconds: f64) -> ValRes
     let microsecond = total_seconds.fract() * 1_000_000.0;
     let days = (total_seconds / 86400f64) as u32;
     let seconds = total_seconds as u64 % 86400;
-    Duration::new(positive, days, seconds as u32, microsecond.round() as u32)
-        .map_err(|err| map_timedelta_err(input, err))
+    match Duration::new(positive, days, seconds as u32, microsecond.round() as u32) {
+        Ok(duration) => check_python_range(input, duration),
+        Err(err) => Err(map_timedelta_err(input, err)),
+    }
 }
 
 #[pyclass(module = "pydantic_core._pydantic_core", extends = PyTzInfo, frozen)]
-- 
2.43.0


From 617edd5567d2330d5e1308f67c68b53a734e0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 14/80] fix: with-default validator: undefined input without a
 default, invalid default with on_error='default', exceptions which are not
 validation errors

---
 src/validators/with_default.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..8a3e8eb 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -157,13 +157,15 @@ impl Validator for WithDefaultValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
+        if self.has_default() && input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
             Ok(self.default_value(py, None::<usize>, state)?.unwrap())
         } else {
             match self.validator.validate(py, input, state) {
                 Ok(v) => Ok(v),
                 Err(e) => match e {
                     ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    // not a validation error, `on_error` does not apply
+                    ValError::InternalErr(_) => Err(e),
                     e => match self.on_error {
                         OnError::Raise => Err(e),
                         OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
@@ -189,8 +191,11 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // the inner validator is used directly, since `on_error='default'` can't help if it's the default
+                    // which is invalid
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
+                        Err(ValError::LineErrors(_)) if self.omit_on_error() => Err(ValError::Omit),
                         Err(e) => {
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
-- 
2.43.0


From 5fb11c4285349ce70a68c2c0153019ede08c8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 15/80] fix: report values of the wrong type in
 validate_strings for typed dict

---
 src/validators/typed_dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index eb4394e..58f71e6 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -193,7 +193,7 @@ impl Validator for TypedDictValidator {
                     Ok(v) => v,
                     Err(ValError::LineErrors(line_errors)) => {
                         let field_loc: LocItem = field.name.clone().into();
-                        if partial_last_key.as_ref() == Some(&field_loc) {
+                        if partial_last_key.as_ref() != Some(&field_loc) || field.required {
                             for err in line_errors {
                                 errors.push(err.with_outer_location(field_loc.clone()));
                             }
-- 
2.43.0


From eedb7f582af52a747635dced438fbed6eb66e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 16/80] fix: field name in the info of validators of default
 values

---
 src/validators/model_fields.rs | 2 ++
 src/validators/typed_dict.rs   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 10d13d7..f4ba27c 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -218,6 +218,8 @@ impl Validator for ModelFieldsValidator {
                     continue;
                 }
 
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index 58f71e6..d9dcebc 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -239,6 +239,8 @@ impl Validator for TypedDictValidator {
                     continue;
                 }
 
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
-- 
2.43.0


From 017c3a99056ad8a1b8e5317f87e6fbfa7712e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 17/80] fix: positional arguments of dataclasses skip fields
 which are keyword-only or not part of __init__

---
 src/validators/dataclass.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..94cc8d9 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -89,7 +89,8 @@ impl BuildValidator for DataclassArgsValidator {
             }
 
             let kw_only = field.get_as(intern!(py, "kw_only"))?.unwrap_or(true);
-            if !kw_only {
+            let init = field.get_as(intern!(py, "init"))?.unwrap_or(true);
+            if init && !kw_only {
                 positional_count += 1;
             }
 
@@ -102,7 +103,7 @@ impl BuildValidator for DataclassArgsValidator {
                 name_py: name_py.into(),
                 lookup_key_collection,
                 validator,
-                init: field.get_as(intern!(py, "init"))?.unwrap_or(true),
+                init,
                 init_only: field.get_as(intern!(py, "init_only"))?.unwrap_or(false),
                 frozen: field.get_as::<bool>(intern!(py, "frozen"))?.unwrap_or(false),
             });
@@ -174,8 +175,11 @@ impl Validator for DataclassArgsValidator {
             }};
         }
 
+        // index of the next positional argument, fields which are keyword-only or not part of `__init__` don't take one
+        let mut next_positional = 0;
+
         // go through fields getting the value from args or kwargs and validating it
-        for (index, field) in self.fields.iter().enumerate() {
+        for field in &self.fields {
             if !field.init {
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
@@ -194,9 +198,11 @@ impl Validator for DataclassArgsValidator {
                 continue;
             }
 
+            let index = next_positional;
             let mut pos_value = None;
-            if let Some(args) = args.args() {
-                if !field.kw_only {
+            if !field.kw_only {
+                next_positional += 1;
+                if let Some(args) = args.args() {
                     pos_value = args.get_item(index);
                 }
             }
-- 
2.43.0


From f961e2dc6ab93fd4e226d5d1501bb107de02cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 18/80] fix: field name in the info of validators of defaults
 of init=False dataclass fields

---
 src/validators/dataclass.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 94cc8d9..cde41b8 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -181,6 +181,7 @@ impl Validator for DataclassArgsValidator {
         // go through fields getting the value from args or kwargs and validating it
         for field in &self.fields {
             if !field.init {
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
-- 
2.43.0


From c6797ac8699ac5f057a8140892bbf4307e551cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:48 +0000
Subject: [PATCH 19/80] fix: dataclass assignment dropped attributes which are
 not fields

---
 src/validators/dataclass.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index cde41b8..1057ad3 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -615,7 +615,13 @@ impl Validator for DataclassValidator {
                 .ok_or_else(|| PyKeyError::new_err(field_name.to_string()))?;
             force_setattr(py, obj, field_name, value)?;
         } else {
-            force_setattr(py, obj, intern!(py, "__dict__"), dc_dict)?;
+            // keep attributes which aren't fields, e.g. extras or those set in `__post_init__`
+            let obj_dict = obj
+                .getattr(intern!(py, "__dict__"))?
+                .downcast_into::<PyDict>()?
+                .copy()?;
+            obj_dict.update(dc_dict.as_mapping())?;
+            force_setattr(py, obj, intern!(py, "__dict__"), obj_dict)?;
         }
 
         Ok(obj.clone().unbind())
-- 
2.43.0


From e19a941d54578d958a7916b2bb8928c7bc2086da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:48 +0000
Subject: [PATCH 20/80] fix: root model assignment did not update the fields
 set

---
 src/validators/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index f2c3658..fc864a5 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -205,6 +205,9 @@ impl Validator for ModelValidator {
                 let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
                 let output = self.validator.validate(py, field_value, state)?;
 
+                if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
+                    fields_set.downcast::<PySet>()?.add(intern!(py, ROOT_FIELD))?;
+                }
                 force_setattr(py, model, intern!(py, ROOT_FIELD), output)?;
                 Ok(model.into_py_any(py)?)
             };
-- 
2.43.0


From 69d8ab9073d01fb9f06e7ed231634fd1b23887b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:12 +0000
Subject: [PATCH 21/80] fix: model assignment moved attributes which are not
 fields to the extras

---
 src/validators/model.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index fc864a5..fa64614 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -215,7 +215,11 @@ impl Validator for ModelValidator {
         let old_dict = model.getattr(intern!(py, DUNDER_DICT))?.downcast_into::<PyDict>()?;
 
         let input_dict = old_dict.copy()?;
-        if let Ok(old_extra) = model.getattr(intern!(py, DUNDER_MODEL_EXTRA_KEY))?.downcast::<PyDict>() {
+        let old_extra = model
+            .getattr(intern!(py, DUNDER_MODEL_EXTRA_KEY))?
+            .downcast_into::<PyDict>()
+            .ok();
+        if let Some(ref old_extra) = old_extra {
             input_dict.update(old_extra.as_mapping())?;
         }
         input_dict.set_item(field_name, field_value)?;
@@ -230,6 +234,18 @@ impl Validator for ModelValidator {
             Bound<'_, PySet>,
         ) = output.extract(py)?;
 
+        if let (Some(old_extra), Ok(validated_extra)) = (old_extra, validated_extra.downcast::<PyDict>()) {
+            // what was in `__dict__` without being a field (e.g. a cached property) is not an extra, leave it there
+            for (key, _) in old_dict.iter() {
+                if !old_extra.contains(&key)? && !key.eq(field_name)? {
+                    if let Some(value) = validated_extra.get_item(&key)? {
+                        validated_extra.del_item(&key)?;
+                        validated_dict.set_item(&key, value)?;
+                    }
+                }
+            }
+        }
+
         if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
             let fields_set = fields_set.downcast::<PySet>()?;
             for field_name in validated_fields_set {
-- 
2.43.0


From 479682b7585b74f2c1e92bce5b10863a766856e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:00 +0000
Subject: [PATCH 22/80] fix: revalidated model instances shared the fields set
 with the original, root models lost it

---
 src/validators/model.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index fa64614..a3a47e4 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -324,10 +324,12 @@ impl ModelValidator {
             let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
             let output = self.validator.validate(py, input, state)?;
 
-            let fields_set = if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
-                PySet::empty(py)?
+            let fields_set = if let Some(existing_fields_set) = existing_fields_set {
+                copy_fields_set(existing_fields_set)?
+            } else if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
+                PySet::empty(py)?.into_any()
             } else {
-                PySet::new(py, [&String::from(ROOT_FIELD)])?
+                PySet::new(py, [&String::from(ROOT_FIELD)])?.into_any()
             };
             force_setattr(py, &instance, intern!(py, DUNDER_FIELDS_SET_KEY), &fields_set)?;
             force_setattr(py, &instance, intern!(py, ROOT_FIELD), output)?;
@@ -336,8 +338,11 @@ impl ModelValidator {
 
             let (model_dict, model_extra, val_fields_set): (Bound<PyAny>, Bound<PyAny>, Bound<PyAny>) =
                 output.extract(py)?;
-            let fields_set = existing_fields_set.unwrap_or(&val_fields_set);
-            set_model_attrs(&instance, &model_dict, &model_extra, fields_set)?;
+            let fields_set = match existing_fields_set {
+                Some(existing_fields_set) => copy_fields_set(existing_fields_set)?,
+                None => val_fields_set,
+            };
+            set_model_attrs(&instance, &model_dict, &model_extra, &fields_set)?;
         }
         self.call_post_init(py, instance, input, state.extra())
     }
@@ -379,6 +384,14 @@ pub(super) fn create_class<'py>(class: &Bound<'py, PyType>) -> PyResult<Bound<'p
     }
 }
 
+/// copy the fields set of an instance being revalidated, so that the new instance doesn't share it
+fn copy_fields_set<'py>(fields_set: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyAny>> {
+    match fields_set.downcast::<PySet>() {
+        Ok(set) => set.call_method0(intern!(set.py(), "copy")),
+        Err(_) => Ok(fields_set.clone()),
+    }
+}
+
 fn set_model_attrs(
     instance: &Bound<'_, PyAny>,
     model_dict: &Bound<'_, PyAny>,
-- 
2.43.0


From 0259c95fdcc1f497fbe9e17bbb5f0049df65a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:50 +0000
Subject: [PATCH 23/80] fix: literal of an enum member next to an equal bool,
 unmatched JSON values given to the enum class as None

---
 src/validators/enum_.rs   | 2 +-
 src/validators/literal.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..e1c3b72 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -122,7 +122,7 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 
         if let Some(v) = T::validate_value(py, input, &self.lookup, strict)? {
             return Ok(v);
-        } else if let Ok(res) = class.as_unbound().call1(py, (input.as_python(),)) {
+        } else if let Some(Ok(res)) = input.as_python().map(|py_input| class.as_unbound().call1(py, (py_input,))) {
             return Ok(res);
         } else if let Some(ref missing) = self.missing {
             let enum_value = missing.bind(py).call1((input.to_object(py)?,)).map_err(|_| {
diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 23de441..cac27dc 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -64,8 +64,7 @@ impl<T: Debug> LiteralLookup<T> {
                     expected_bool.false_id = Some(id);
                 }
                 expected_py_primitives.set_item(&k, id)?;
-            }
-            if k.is_exact_instance_of::<PyInt>() {
+            } else if k.is_exact_instance_of::<PyInt>() {
                 if let Ok(int_64) = k.extract::<i64>() {
                     expected_int.insert(int_64, id);
                     expected_py_primitives.set_item(&k, id)?;
-- 
2.43.0


From 11482c80b936cd3bcce6edaa49a0f4130f63830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 24/80] rustfmt of the previous fix

---
 src/validators/enum_.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index e1c3b72..9147eda 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -122,7 +122,10 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 
         if let Some(v) = T::validate_value(py, input, &self.lookup, strict)? {
             return Ok(v);
-        } else if let Some(Ok(res)) = input.as_python().map(|py_input| class.as_unbound().call1(py, (py_input,))) {
+        } else if let Some(Ok(res)) = input
+            .as_python()
+            .map(|py_input| class.as_unbound().call1(py, (py_input,)))
+        {
             return Ok(res);
         } else if let Some(ref missing) = self.missing {
             let enum_value = missing.bind(py).call1((input.to_object(py)?,)).map_err(|_| {
-- 
2.43.0


From b8e6f6f9e8e03df1ea7ced9cc2f58f2aaaf945c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 25/80] fix: omit and use-default raised inside a wrap
 validator's handler reported as SchemaError

---
 src/errors/value_exception.rs |  6 ++++
 src/validators/function.rs    |  2 +-
 src/validators/generator.rs   | 66 ++++++++++++++++++++++-------------
 3 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index d428dc5..133f787 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -38,6 +38,12 @@ impl PydanticOmit {
 #[derive(Debug, Clone)]
 pub struct PydanticUseDefault {}
 
+impl PydanticUseDefault {
+    pub(crate) fn new_err() -> PyErr {
+        PyErr::new::<Self, ()>(())
+    }
+}
+
 #[pymethods]
 impl PydanticUseDefault {
     #[new]
diff --git a/src/validators/function.rs b/src/validators/function.rs
index 4afcac3..f10a4a2 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -431,7 +431,7 @@ impl ValidatorCallable {
         outer_location: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         let outer_location = outer_location.map(Into::into);
-        self.validator.validate(py, input_value, outer_location)
+        self.validator.handler_validate(py, input_value, outer_location)
     }
 
     fn __repr__(&self) -> String {
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index d228ff6..4ce2bc6 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -4,7 +4,7 @@ use std::sync::Arc;
 use pyo3::types::{PyDict, PyString};
 use pyo3::{prelude::*, IntoPyObjectExt, PyTraverseError, PyVisit};
 
-use crate::errors::{ErrorType, LocItem, ValError, ValResult};
+use crate::errors::{ErrorType, LocItem, PydanticOmit, PydanticUseDefault, ValError, ValResult};
 use crate::input::{BorrowInput, GenericIterator, Input};
 use crate::py_gc::PyGcTraverse;
 use crate::recursion_guard::RecursionState;
@@ -295,20 +295,21 @@ impl InternalValidator {
         state.exactness = self.exactness;
         let result = self
             .validator
-            .validate_assignment(py, model, field_name, field_value, &mut state)
-            .map_err(|e| {
-                ValidationError::from_val_error(
-                    py,
-                    PyString::new(py, &self.name).into(),
-                    InputType::Python,
-                    e,
-                    outer_location,
-                    self.hide_input_in_errors,
-                    self.validation_error_cause,
-                )
-            });
+            .validate_assignment(py, model, field_name, field_value, &mut state);
         self.exactness = state.exactness;
-        result
+        result.map_err(|e| self.handler_err(py, e, outer_location))
+    }
+
+    /// As `validate`, called from the function of a wrap validator: "omit" and "use default" are not errors of
+    /// that function, raise the exceptions which let them through it.
+    pub fn handler_validate<'py>(
+        &mut self,
+        py: Python<'py>,
+        input: &(impl Input<'py> + ?Sized),
+        outer_location: Option<LocItem>,
+    ) -> PyResult<PyObject> {
+        self.inner_validate(py, input)
+            .map_err(|e| self.handler_err(py, e, outer_location))
     }
 
     pub fn validate<'py>(
@@ -317,6 +318,11 @@ impl InternalValidator {
         input: &(impl Input<'py> + ?Sized),
         outer_location: Option<LocItem>,
     ) -> PyResult<PyObject> {
+        self.inner_validate(py, input)
+            .map_err(|e| self.validation_err(py, e, outer_location))
+    }
+
+    fn inner_validate<'py>(&mut self, py: Python<'py>, input: &(impl Input<'py> + ?Sized)) -> ValResult<PyObject> {
         let extra = Extra {
             input_type: self.validation_mode,
             data: self.data.as_ref().map(|data| data.bind(py).clone()),
@@ -332,21 +338,31 @@ impl InternalValidator {
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
         state.fields_set_count = self.fields_set_count;
-        let result = self.validator.validate(py, input, &mut state).map_err(|e| {
-            ValidationError::from_val_error(
-                py,
-                PyString::new(py, &self.name).into(),
-                InputType::Python,
-                e,
-                outer_location,
-                self.hide_input_in_errors,
-                self.validation_error_cause,
-            )
-        });
+        let result = self.validator.validate(py, input, &mut state);
         self.exactness = state.exactness;
         self.fields_set_count = state.fields_set_count;
         result
     }
+
+    fn handler_err(&self, py: Python<'_>, error: ValError, outer_location: Option<LocItem>) -> PyErr {
+        match error {
+            ValError::Omit => PydanticOmit::new_err(),
+            ValError::UseDefault => PydanticUseDefault::new_err(),
+            error => self.validation_err(py, error, outer_location),
+        }
+    }
+
+    fn validation_err(&self, py: Python<'_>, error: ValError, outer_location: Option<LocItem>) -> PyErr {
+        ValidationError::from_val_error(
+            py,
+            PyString::new(py, &self.name).into(),
+            InputType::Python,
+            error,
+            outer_location,
+            self.hide_input_in_errors,
+            self.validation_error_cause,
+        )
+    }
 }
 
 impl_py_gc_traverse!(InternalValidator {
-- 
2.43.0


From bfa24e377981c37a63952979d2600501135b901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 26/80] fix: tuple with missing items and defaults lost the
 other errors and did not omit

---
 src/validators/tuple.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 0985e5a..436e67d 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -89,10 +89,13 @@ impl TupleValidator {
                 },
                 None => {
                     let index = collection_iter.next_calls() - 1;
-                    if let Some(value) = validator.default_value(py, Some(index), state)? {
-                        output.push(value);
-                    } else {
-                        errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index));
+                    match validator.default_value(py, Some(index), state) {
+                        Ok(Some(value)) => output.push(value),
+                        Ok(None) => errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index)),
+                        // the location of an invalid default already includes the index
+                        Err(ValError::LineErrors(line_errors)) => errors.extend(line_errors),
+                        Err(ValError::Omit) => (),
+                        Err(err) => return Err(err),
                     }
                 }
             }
-- 
2.43.0


From e650d577ef9a0c2466aeba8579109bda483d4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 27/80] fix: generator schemas iterated twice over an iterable,
 panicking if the second failed, and repeated duplicate JSON keys

---
 src/input/input_json.rs   | 5 ++++-
 src/input/input_python.rs | 7 +++----
 src/input/return_enums.rs | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/input/input_json.rs b/src/input/input_json.rs
index 8f45376..87e73a6 100644
--- a/src/input/input_json.rs
+++ b/src/input/input_json.rs
@@ -1,5 +1,6 @@
 use std::borrow::Cow;
 
+use ahash::AHashSet;
 use jiter::{JsonArray, JsonObject, JsonValue};
 use num_traits::cast::ToPrimitive;
 use pyo3::prelude::*;
@@ -263,11 +264,13 @@ impl<'py, 'data> Input<'py> for JsonValue<'data> {
             JsonValue::Str(s) => Ok(string_to_vec(s).into()),
             JsonValue::Object(object) => {
                 // return keys iterator to match python's behavior
-                // FIXME jiter doesn't deduplicate keys, should probably do that here before iteration.
+                // jiter doesn't deduplicate keys, each one is iterated over once as in a dict
+                let mut seen = AHashSet::with_capacity(object.len());
                 let keys: JsonArray = JsonArray::new(
                     object
                         .as_slice()
                         .iter()
+                        .filter(|(k, _)| seen.insert(k.as_ref()))
                         .map(|(k, _)| JsonValue::Str(k.clone()))
                         .collect(),
                 );
diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index bbdcc69..c6094d9 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -488,10 +488,9 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
     }
 
     fn validate_iter(&self) -> ValResult<GenericIterator<'static>> {
-        if self.try_iter().is_ok() {
-            Ok(self.into())
-        } else {
-            Err(ValError::new(ErrorTypeDefaults::IterableType, self))
+        match self.try_iter() {
+            Ok(iter) => Ok(GenericIterator::from_py_iter(self, iter)),
+            Err(_) => Err(ValError::new(ErrorTypeDefaults::IterableType, self)),
         }
     }
 
diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 724fca4..82c464e 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -396,11 +396,12 @@ impl<'data> From<JsonArray<'data>> for GenericIterator<'data> {
     }
 }
 
-impl From<&Bound<'_, PyAny>> for GenericIterator<'_> {
-    fn from(obj: &Bound<'_, PyAny>) -> Self {
+impl GenericIterator<'_> {
+    /// `iter` is the iterator over `obj`
+    pub fn from_py_iter(obj: &Bound<'_, PyAny>, iter: Bound<'_, PyIterator>) -> Self {
         let py_iter = GenericPyIterator {
             obj: obj.clone().into(),
-            iter: obj.try_iter().unwrap().into(),
+            iter: iter.into(),
             index: 0,
         };
         Self::PyIterator(py_iter)
-- 
2.43.0


From 49eb9b4afb7715eae514dc5d2851027edf4953ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 28/80] fix: warnings reported again by wrap serializer
 handlers and lazily serialized generators

---
 src/serializers/extra.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 82c4323..27c83ab 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -251,7 +251,8 @@ impl ExtraOwned {
     pub fn new(extra: &Extra) -> Self {
         Self {
             mode: extra.mode.clone(),
-            warnings: extra.warnings.clone(),
+            // warnings of what was serialized so far are reported by the call which `extra` belongs to
+            warnings: CollectWarnings::new(extra.warnings.mode),
             by_alias: extra.by_alias,
             exclude_unset: extra.exclude_unset,
             exclude_defaults: extra.exclude_defaults,
@@ -458,7 +459,8 @@ impl CollectWarnings {
         if self.mode == WarningsMode::None {
             return Ok(());
         }
-        let warnings = self.warnings.lock().expect("lock poisoned");
+        // take the warnings, so that further checks don't report them again
+        let warnings = std::mem::take(&mut *self.warnings.lock().expect("lock poisoned"));
 
         if warnings.is_empty() {
             return Ok(());
-- 
2.43.0


From a561112859ecc2e67c7d94c2ea151878de461bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 29/80] fix: partial mode switched off or left on for later
 union branches and for typed-dict defaults

---
 src/input/return_enums.rs          |  2 ++
 src/validators/arguments.rs        |  2 +-
 src/validators/arguments_v3.rs     |  2 +-
 src/validators/dataclass.rs        |  2 +-
 src/validators/definitions.rs      |  4 +--
 src/validators/dict.rs             | 11 ++++----
 src/validators/generator.rs        |  2 +-
 src/validators/model_fields.rs     |  2 +-
 src/validators/tuple.rs            |  2 +-
 src/validators/typed_dict.rs       |  3 +++
 src/validators/validation_state.rs | 41 ++++++++++++++++++++++++++++++
 11 files changed, 60 insertions(+), 13 deletions(-)

diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 82c464e..c7dc138 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -131,6 +131,7 @@ pub(crate) fn validate_iter_to_vec<'py>(
     let mut output: Vec<PyObject> = Vec::with_capacity(capacity);
     let mut errors: Vec<ValLineError> = Vec::new();
     let allow_partial = state.allow_partial;
+    let state = &mut state.rebind_allow_partial(allow_partial);
 
     for (index, is_last_partial, item_result) in state.enumerate_last_partial(iter) {
         state.allow_partial = match is_last_partial {
@@ -228,6 +229,7 @@ pub(crate) fn validate_iter_to_set<'py>(
     let mut errors: Vec<ValLineError> = Vec::new();
 
     let allow_partial = state.allow_partial;
+    let state = &mut state.rebind_allow_partial(allow_partial);
 
     for (index, is_last_partial, item_result) in state.enumerate_last_partial(iter) {
         state.allow_partial = match is_last_partial {
diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2ca3ba5..2c087e9 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -190,7 +190,7 @@ impl Validator for ArgumentsValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         let args = input.validate_args()?;
 
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 22c9c6d..1fdae3c 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -763,7 +763,7 @@ impl Validator for ArgumentsV3Validator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         let args_dict = input.validate_dict(false);
 
diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 1057ad3..83f6b78 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -145,7 +145,7 @@ impl Validator for DataclassArgsValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         let args = input.validate_dataclass_args(&self.dataclass_name)?;
 
diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index aeeb627..1d050a8 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -76,13 +76,13 @@ impl Validator for DefinitionRefValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         self.definition.read(|validator| {
             let validator = validator.unwrap();
             if let Some(id) = input.as_python().map(py_identity) {
                 // Python objects can be cyclic, so need recursion guard
-                let Ok(mut guard) = RecursionGuard::new(state, id, self.definition.id()) else {
+                let Ok(mut guard) = RecursionGuard::new(&mut **state, id, self.definition.id()) else {
                     return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, input));
                 };
                 validator.validate(py, input, guard.state())
diff --git a/src/validators/dict.rs b/src/validators/dict.rs
index b65b38f..7d9b7d8 100644
--- a/src/validators/dict.rs
+++ b/src/validators/dict.rs
@@ -110,11 +110,12 @@ where
         let output = PyDict::new(self.py);
         let mut errors: Vec<ValLineError> = Vec::new();
         let allow_partial = self.state.allow_partial;
+        let state = &mut self.state.rebind_allow_partial(allow_partial);
 
-        for (_, is_last_partial, item_result) in self.state.enumerate_last_partial(iterator) {
-            self.state.allow_partial = false.into();
+        for (_, is_last_partial, item_result) in state.enumerate_last_partial(iterator) {
+            state.allow_partial = false.into();
             let (key, value) = item_result?;
-            let output_key = match self.key_validator.validate(self.py, key.borrow_input(), self.state) {
+            let output_key = match self.key_validator.validate(self.py, key.borrow_input(), state) {
                 Ok(value) => Some(value),
                 Err(ValError::LineErrors(line_errors)) => {
                     for err in line_errors {
@@ -126,11 +127,11 @@ where
                 Err(ValError::Omit) => continue,
                 Err(err) => return Err(err),
             };
-            self.state.allow_partial = match is_last_partial {
+            state.allow_partial = match is_last_partial {
                 true => allow_partial,
                 false => false.into(),
             };
-            let output_value = match self.value_validator.validate(self.py, value.borrow_input(), self.state) {
+            let output_value = match self.value_validator.validate(self.py, value.borrow_input(), state) {
                 Ok(value) => value,
                 Err(ValError::LineErrors(line_errors)) => {
                     if !is_last_partial {
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 4ce2bc6..f03c614 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -67,7 +67,7 @@ impl Validator for GeneratorValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         let iterator = input.validate_iter()?.into_static();
         let validator = self.item_validator.as_ref().map(|v| {
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index f4ba27c..6e8e260 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -128,7 +128,7 @@ impl Validator for ModelFieldsValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         let strict = state.strict_or(self.strict);
         let from_attributes = state.extra().from_attributes.unwrap_or(self.from_attributes);
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 436e67d..b74228f 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -279,7 +279,7 @@ impl Validator for TupleValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_allow_partial(false.into());
 
         let collection = input.validate_tuple(state.strict_or(self.strict))?.unpack(state);
         let actual_length = collection.len();
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index d9dcebc..111471d 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -167,6 +167,7 @@ impl Validator for TypedDictValidator {
             None
         };
         let allow_partial = state.allow_partial;
+        let state = &mut state.rebind_allow_partial(allow_partial);
 
         let validate_by_alias = state.validate_by_alias_or(self.validate_by_alias);
         let validate_by_name = state.validate_by_name_or(self.validate_by_name);
@@ -239,6 +240,8 @@ impl Validator for TypedDictValidator {
                     continue;
                 }
 
+                // a default is not part of the input, hence not the last element of it
+                state.allow_partial = false.into();
                 let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
 
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
diff --git a/src/validators/validation_state.rs b/src/validators/validation_state.rs
index b5bf37f..4b4408b 100644
--- a/src/validators/validation_state.rs
+++ b/src/validators/validation_state.rs
@@ -52,6 +52,22 @@ impl<'a, 'py> ValidationState<'a, 'py> {
         ValidationStateWithReboundExtra { state: self, old_extra }
     }
 
+    /// Temporarily changes `allow_partial`, e.g. for the elements of a container or for a validator
+    /// which does not support partial validation.
+    ///
+    /// When `ValidationStateWithReboundPartial` drops, `allow_partial` is restored to its original value.
+    pub fn rebind_allow_partial<'state>(
+        &'state mut self,
+        allow_partial: PartialMode,
+    ) -> ValidationStateWithReboundPartial<'state, 'a, 'py> {
+        let old_allow_partial = self.allow_partial;
+        self.allow_partial = allow_partial;
+        ValidationStateWithReboundPartial {
+            state: self,
+            old_allow_partial,
+        }
+    }
+
     pub fn extra(&self) -> &'_ Extra<'a, 'py> {
         &self.extra
     }
@@ -133,6 +149,31 @@ impl Drop for ValidationStateWithReboundExtra<'_, '_, '_> {
     }
 }
 
+pub struct ValidationStateWithReboundPartial<'state, 'a, 'py> {
+    state: &'state mut ValidationState<'a, 'py>,
+    old_allow_partial: PartialMode,
+}
+
+impl<'a, 'py> std::ops::Deref for ValidationStateWithReboundPartial<'_, 'a, 'py> {
+    type Target = ValidationState<'a, 'py>;
+
+    fn deref(&self) -> &Self::Target {
+        self.state
+    }
+}
+
+impl std::ops::DerefMut for ValidationStateWithReboundPartial<'_, '_, '_> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        self.state
+    }
+}
+
+impl Drop for ValidationStateWithReboundPartial<'_, '_, '_> {
+    fn drop(&mut self) {
+        self.state.allow_partial = self.old_allow_partial;
+    }
+}
+
 /// Similar to `iter.enumerate()` but also returns a bool indicating if we're at the last element.
 pub struct EnumerateLastPartial<I: Iterator> {
     iter: I,
-- 
2.43.0


From 4d19ec70dd2910d083e2480e941a843a845d2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 30/80] fix: iterating the *args of arguments-v3 panicked when
 the iterable raised

---
 src/validators/arguments_v3.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 1fdae3c..0ec89aa 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -10,7 +10,7 @@ use pyo3::IntoPyObjectExt;
 use crate::build_tools::py_schema_err;
 use crate::build_tools::{schema_or_config_same, ExtraBehavior};
 use crate::errors::LocItem;
-use crate::errors::{ErrorTypeDefaults, ValError, ValLineError, ValResult};
+use crate::errors::{py_err_string, ErrorType, ErrorTypeDefaults, ValError, ValLineError, ValResult};
 use crate::input::ConsumeIterator;
 use crate::input::{
     Arguments, BorrowInput, Input, KeywordArgs, PositionalArgs, ValidatedDict, ValidatedTuple, ValidationMatch,
@@ -279,8 +279,18 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarArgs => match dict_value.borrow_input().validate_tuple(false) {
                         Ok(tuple) => {
                             let mut i: i64 = 0;
-                            tuple.unpack(state).try_for_each(|v| {
-                                match parameter.validator.validate(py, v.unwrap().borrow_input(), state) {
+                            let result = tuple.unpack(state).try_for_each(|v| {
+                                let v = v.map_err(|e| {
+                                    ValError::new_with_loc(
+                                        ErrorType::IterationError {
+                                            error: py_err_string(py, e),
+                                            context: None,
+                                        },
+                                        dict_value.borrow_input(),
+                                        i,
+                                    )
+                                })?;
+                                match parameter.validator.validate(py, v.borrow_input(), state) {
                                     Ok(tuple_value) => {
                                         output_args.push(tuple_value);
                                         i += 1;
@@ -302,7 +312,16 @@ impl ArgumentsV3Validator {
                                         Err(err)
                                     }
                                 }
-                            })?;
+                            });
+                            match result {
+                                Ok(()) => (),
+                                Err(ValError::LineErrors(line_errors)) => {
+                                    errors.extend(line_errors.into_iter().map(|err| {
+                                        lookup_path.apply_error_loc(err, self.loc_by_alias, &parameter.name)
+                                    }));
+                                }
+                                Err(err) => return Err(err),
+                            }
                         }
                         Err(_) => {
                             let val_error = ValLineError::new(ErrorTypeDefaults::TupleType, dict_value.borrow_input());
-- 
2.43.0


From 7246bf4fe21f2b64474533d4833c2a4cd388f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 31/80] fix: unpacked typed dict **kwargs schema returning no
 dict panicked

---
 src/validators/arguments.rs    | 2 +-
 src/validators/arguments_v3.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2c087e9..cc170ba 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -384,7 +384,7 @@ impl Validator for ArgumentsValidator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 0ec89aa..481629d 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -386,7 +386,7 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, dict_value.borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -437,7 +437,7 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, PyDict::new(py).borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -757,7 +757,7 @@ impl ArgumentsV3Validator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
-- 
2.43.0


From 8af228d4b1079c18bc1d0f46ae78bf783d2c8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 32/80] fix: an invalid default of an argument hid the errors
 of the other arguments

---
 src/validators/arguments.rs    | 12 ++++++++++--
 src/validators/arguments_v3.rs | 27 +++++++++++++++++++++------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index cc170ba..53c7445 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -261,10 +261,18 @@ impl Validator for ArgumentsValidator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if let Some(ref kwarg_key) = parameter.kwarg_key {
                             output_kwargs.set_item(kwarg_key, value)?;
                         } else {
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 481629d..3b80cae 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -404,11 +404,18 @@ impl ArgumentsV3Validator {
                 match parameter.mode {
                     // ... fallback to the default value (and error if no default):
                     ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword | ParameterMode::KeywordOnly => {
-                        if let Some(value) =
-                            parameter
-                                .validator
-                                .default_value(py, Some(parameter.name.as_str()), state)?
+                        let default = match parameter
+                            .validator
+                            .default_value(py, Some(parameter.name.as_str()), state)
                         {
+                            Ok(default) => default,
+                            Err(ValError::LineErrors(line_errors)) => {
+                                errors.extend(line_errors);
+                                continue;
+                            }
+                            Err(err) => return Err(err),
+                        };
+                        if let Some(value) = default {
                             if matches!(
                                 parameter.mode,
                                 ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword
@@ -604,10 +611,18 @@ impl ArgumentsV3Validator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if parameter.mode == ParameterMode::PositionalOnly {
                             output_args.push(value);
                         } else {
-- 
2.43.0


From 02af5f1ae756bac8665ad519ef5b3b712b5757c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 33/80] fix: arguments-v3 rejected *args and **kwargs after a
 parameter with a default

---
 src/validators/arguments_v3.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 3b80cae..01f06e6 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -177,7 +177,11 @@ impl BuildValidator for ArgumentsV3Validator {
                 _ => false,
             };
 
-            if had_default_arg && !has_default && !had_keyword_only {
+            let is_variadic = matches!(
+                mode,
+                ParameterMode::VarArgs | ParameterMode::VarKwargsUniform | ParameterMode::VarKwargsUnpackedTypedDict
+            );
+            if had_default_arg && !has_default && !had_keyword_only && !is_variadic {
                 return py_schema_err!("Required parameter '{}' follows parameter with default", name);
             } else if has_default {
                 had_default_arg = true;
-- 
2.43.0


From 6b1003cbc574203095435181ac48fb6cd2b33d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 34/80] fix: **kwargs could overwrite a declared parameter
 without validation

---
 src/validators/arguments.rs    | 15 +++++++++++++++
 src/validators/arguments_v3.rs | 31 +++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 53c7445..b72271d 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -182,6 +182,13 @@ impl_py_gc_traverse!(ArgumentsValidator {
     var_kwargs_validator
 });
 
+impl ArgumentsValidator {
+    /// Whether `name` is the name under which a parameter is passed to the function as a keyword argument.
+    fn is_kwarg_name(&self, name: &str) -> bool {
+        self.parameters.iter().any(|p| p.kwarg_key.is_some() && p.name == name)
+    }
+}
+
 impl Validator for ArgumentsValidator {
     fn validate<'py>(
         &self,
@@ -348,6 +355,14 @@ impl Validator for ArgumentsValidator {
                     if !used_kwargs.contains(either_str.as_cow()?.as_ref()) {
                         match self.var_kwargs_mode {
                             VarKwargsMode::Uniform => match &self.var_kwargs_validator {
+                                // the function cannot receive the name of one of its parameters in `**kwargs`
+                                Some(_) if self.is_kwarg_name(either_str.as_cow()?.as_ref()) => {
+                                    errors.push(ValLineError::new_with_loc(
+                                        ErrorTypeDefaults::UnexpectedKeywordArgument,
+                                        value,
+                                        raw_key.clone(),
+                                    ));
+                                }
                                 Some(validator) => match validator.validate(py, value.borrow_input(), state) {
                                     Ok(value) => {
                                         output_kwargs
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 01f06e6..569dc75 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -225,6 +225,13 @@ impl_py_gc_traverse!(Parameter { validator });
 impl_py_gc_traverse!(ArgumentsV3Validator { parameters });
 
 impl ArgumentsV3Validator {
+    /// Whether `name` is the name under which a parameter is passed to the function as a keyword argument.
+    fn is_kwarg_name(&self, name: &str) -> bool {
+        self.parameters.iter().any(|p| {
+            matches!(p.mode, ParameterMode::PositionalOrKeyword | ParameterMode::KeywordOnly) && p.name == name
+        })
+    }
+
     /// Validate the arguments from a mapping:
     /// ```py
     /// def func(a: int, /, *, b: str, **kwargs: int) -> None:
@@ -353,6 +360,20 @@ impl ArgumentsV3Validator {
                             for (dict_key, dict_value) in value {
                                 // Validate keys are strings:
                                 match dict_key.validate_str(true, false).map(ValidationMatch::into_inner) {
+                                    // the function cannot receive the name of one of its parameters in `**kwargs`
+                                    Ok(either_str) if self.is_kwarg_name(either_str.as_cow()?.as_ref()) => {
+                                        let val_error = ValLineError::new_with_loc(
+                                            ErrorTypeDefaults::UnexpectedKeywordArgument,
+                                            dict_value.borrow_input(),
+                                            dict_key.clone(),
+                                        );
+                                        errors.push(lookup_path.apply_error_loc(
+                                            val_error,
+                                            self.loc_by_alias,
+                                            &parameter.name,
+                                        ));
+                                        continue;
+                                    }
                                     Ok(_) => (),
                                     Err(ValError::LineErrors(line_errors)) => {
                                         for err in line_errors {
@@ -735,6 +756,16 @@ impl ArgumentsV3Validator {
                             }
                             Some(var_kwargs_parameter) => {
                                 match var_kwargs_parameter.mode {
+                                    // the function cannot receive the name of one of its parameters in `**kwargs`
+                                    ParameterMode::VarKwargsUniform
+                                        if self.is_kwarg_name(either_str.as_cow()?.as_ref()) =>
+                                    {
+                                        errors.push(ValLineError::new_with_loc(
+                                            ErrorTypeDefaults::UnexpectedKeywordArgument,
+                                            value,
+                                            raw_key.clone(),
+                                        ));
+                                    }
                                     ParameterMode::VarKwargsUniform => {
                                         match var_kwargs_parameter.validator.validate(py, value.borrow_input(), state) {
                                             Ok(value) => {
-- 
2.43.0


From e0ebe70b3d2861dc6ba7bdf789bc1f0cba9a3d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 35/80] fix: include dropping a required field made the union
 serializer reject every branch

---
 src/serializers/fields.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..f7cb83e 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -161,12 +161,11 @@ impl GeneralFieldsSerializer {
             let (key, value) = result?;
             let key_str = key_str(&key)?;
             let op_field = self.fields.get(key_str);
+            // fields dropped by a filter below are still present in the value
+            if op_field.is_some_and(|field| field.required) {
+                used_req_fields += 1;
+            }
             if extra.exclude_none && value.is_none() {
-                if let Some(field) = op_field {
-                    if field.required {
-                        used_req_fields += 1;
-                    }
-                }
                 continue;
             }
             let field_extra = Extra {
@@ -187,10 +186,6 @@ impl GeneralFieldsSerializer {
                             output_dict.set_item(output_key, value)?;
                         }
                     }
-
-                    if field.required {
-                        used_req_fields += 1;
-                    }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let value = match &self.extra_serializer {
                         Some(serializer) => {
-- 
2.43.0


From 679c0f6ffe25baec90aaaf958a05292a182bd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 36/80] fix: to_json ignored the extras serializer of models
 and typed dicts

---
 src/serializers/fields.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index f7cb83e..92cdc04 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -266,8 +266,23 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    match &self.extra_serializer {
+                        Some(serializer) => {
+                            let s = PydanticSerializer::new(
+                                &value,
+                                serializer,
+                                next_include.as_ref(),
+                                next_exclude.as_ref(),
+                                &field_extra,
+                            );
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                        None => {
+                            let s =
+                                SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                    }
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -439,8 +454,22 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    match &self.extra_serializer {
+                        Some(serializer) => {
+                            let s = PydanticSerializer::new(
+                                &value,
+                                serializer,
+                                next_include.as_ref(),
+                                next_exclude.as_ref(),
+                                extra,
+                            );
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                        None => {
+                            let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From b75919ad95cd0cb942754f8099e2c627e9c675d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 37/80] fix: include/exclude indices out of range wrapped round
 to other elements

---
 src/serializers/filter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..e26e125 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -16,11 +16,15 @@ pub(crate) struct SchemaFilter<T> {
 }
 
 fn map_negative_index<'py>(value: &Bound<'py, PyAny>, len: Option<usize>) -> PyResult<Bound<'py, PyAny>> {
-    let py = value.py();
     match len {
-        Some(len) => Ok(value
-            .call_method1(intern!(py, "__mod__"), (len,))
-            .unwrap_or_else(|_| value.clone())),
+        Some(len) => {
+            // only negative indices are shifted, an index out of range must not match another element
+            if value.lt(0).unwrap_or(false) {
+                Ok(value.add(len).unwrap_or_else(|_| value.clone()))
+            } else {
+                Ok(value.clone())
+            }
+        }
         None => {
             // check that it's not negative
             if value.lt(0).unwrap_or(false) {
-- 
2.43.0


From 06f8d2cee5bef44a93180137c24fdcbeb2bd3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 38/80] fix: a nested exclude re-added elements dropped by the
 schema's include/exclude

---
 src/serializers/filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index e26e125..1b54eea 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -229,10 +229,8 @@ trait FilterLogic<T: Eq + Copy> {
             }
         }
 
-        if next_exclude.is_some() {
+        if self.default_filter(int_key) {
             Ok(Some((None, next_exclude)))
-        } else if self.default_filter(int_key) {
-            Ok(Some((None, None)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 596d49d8db61494993e7c64f10a724048444447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 39/80] fix: to_json applied include/exclude of a set to its
 items

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 33f53b2..96e5e15 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -380,7 +380,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
             let py_seq = value.downcast::<$t>().map_err(py_err_se_err)?;
             let mut seq = serializer.serialize_seq(Some(py_seq.len()))?;
             for element in py_seq.iter() {
-                let item_serializer = SerializeInfer::new(&element, include, exclude, extra);
+                let item_serializer = SerializeInfer::new(&element, None, None, extra);
                 seq.serialize_element(&item_serializer)?
             }
             seq.end()
-- 
2.43.0


From eb65a3f115c3610310b091ad18c050d3e727288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 40/80] fix: to_json of a float schema took any object with
 __float__ as a float, and mode='json' failed on large ints

---
 src/serializers/type_serializers/float.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/serializers/type_serializers/float.rs b/src/serializers/type_serializers/float.rs
index 4153981..f2ccde1 100644
--- a/src/serializers/type_serializers/float.rs
+++ b/src/serializers/type_serializers/float.rs
@@ -77,7 +77,14 @@ impl TypeSerializer for FloatSerializer {
             IsType::Subclass => match extra.check {
                 SerCheck::Strict => Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err()),
                 SerCheck::Lax | SerCheck::None => match extra.mode {
-                    SerMode::Json => value.extract::<f64>()?.into_py_any(py),
+                    SerMode::Json => match value.extract::<f64>() {
+                        Ok(v) => v.into_py_any(py),
+                        // an int which is too large for a float
+                        Err(_) => {
+                            extra.warnings.on_fallback_py(self.get_name(), value, extra)?;
+                            infer_to_python(value, include, exclude, extra)
+                        }
+                    },
                     _ => infer_to_python(value, include, exclude, extra),
                 },
             },
@@ -107,9 +114,14 @@ impl TypeSerializer for FloatSerializer {
         // TODO: Merge extra.config into self.inf_nan_mode?
         extra: &Extra,
     ) -> Result<S::Ok, S::Error> {
-        match value.extract::<f64>() {
-            Ok(v) => serialize_f64(v, serializer, self.inf_nan_mode),
-            Err(_) => {
+        // an int which is too large for a float is serialized by inference, like other types
+        let float = match extra.ob_type_lookup.is_type(value, ObType::Float) {
+            IsType::Exact | IsType::Subclass => value.extract::<f64>().ok(),
+            IsType::False => None,
+        };
+        match float {
+            Some(v) => serialize_f64(v, serializer, self.inf_nan_mode),
+            None => {
                 extra.warnings.on_fallback_ser::<S>(self.get_name(), value, extra)?;
                 infer_serialize(value, serializer, include, exclude, extra)
             }
-- 
2.43.0


From ad73b0b9ac806a49fcbd90de3ef72b1ef218a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 41/80] fix: to_json of a typed dict checked the type before
 serialize_as_any, unlike to_python

---
 src/serializers/fields.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 92cdc04..b1ada44 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -404,13 +404,6 @@ impl TypeSerializer for GeneralFieldsSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> Result<S::Ok, S::Error> {
-        let (main_dict, extra_dict) = if let Some(main_extra_dict) = self.extract_dicts(value) {
-            main_extra_dict
-        } else {
-            extra.warnings.on_fallback_ser::<S>(self.get_name(), value, extra)?;
-            return infer_serialize(value, serializer, include, exclude, extra);
-        };
-
         // If there is already a model registered (from a dataclass, BaseModel)
         // then do not touch it
         // If there is no model, we (a TypedDict) are the model
@@ -430,6 +423,12 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 return infer_serialize(value, serializer, include, exclude, &td_extra);
             }
         }
+        let (main_dict, extra_dict) = if let Some(main_extra_dict) = self.extract_dicts(value) {
+            main_extra_dict
+        } else {
+            extra.warnings.on_fallback_ser::<S>(self.get_name(), value, extra)?;
+            return infer_serialize(value, serializer, include, exclude, extra);
+        };
         let expected_len = match self.mode {
             FieldsMode::TypedDictAllow => main_dict.len() + self.computed_field_count(),
             _ => self.fields.len() + option_length!(extra_dict) + self.computed_field_count(),
-- 
2.43.0


From 37b365b90f7f664d2011e3b0dc8dab65f9ec9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 42/80] fix: to_python(mode='json') used the python schema of
 json_or_python

---
 src/serializers/type_serializers/json_or_python.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializers/type_serializers/json_or_python.rs b/src/serializers/type_serializers/json_or_python.rs
index 0e2de33..0b3f156 100644
--- a/src/serializers/type_serializers/json_or_python.rs
+++ b/src/serializers/type_serializers/json_or_python.rs
@@ -55,7 +55,11 @@ impl TypeSerializer for JsonOrPythonSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> PyResult<PyObject> {
-        self.python.to_python(value, include, exclude, extra)
+        if extra.mode.is_json() {
+            self.json.to_python(value, include, exclude, extra)
+        } else {
+            self.python.to_python(value, include, exclude, extra)
+        }
     }
 
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-- 
2.43.0


From 9d0b66381dfedb712f1d3a61de377cc8a2b7b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 43/80] fix: subclass instances in dicts, sets, typed dicts and
 float values were no match for union serializers

---
 src/serializers/fields.rs                          | 12 ++++++++++++
 src/serializers/type_serializers/dict.rs           |  4 ++++
 src/serializers/type_serializers/float.rs          |  4 ++++
 src/serializers/type_serializers/generator.rs      |  4 ++++
 src/serializers/type_serializers/json.rs           |  4 ++++
 src/serializers/type_serializers/json_or_python.rs |  4 ++++
 src/serializers/type_serializers/set_frozenset.rs  |  4 ++++
 7 files changed, 36 insertions(+)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b1ada44..01133f0 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -480,6 +480,18 @@ impl TypeSerializer for GeneralFieldsSerializer {
     fn get_name(&self) -> &'static str {
         "general-fields"
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.fields.values().any(|field| {
+            field
+                .serializer
+                .as_ref()
+                .is_some_and(TypeSerializer::retry_with_lax_check)
+        }) || self
+            .extra_serializer
+            .as_ref()
+            .is_some_and(|serializer| serializer.retry_with_lax_check())
+    }
 }
 
 fn key_str<'a>(key: &'a Bound<'_, PyAny>) -> PyResult<&'a str> {
diff --git a/src/serializers/type_serializers/dict.rs b/src/serializers/type_serializers/dict.rs
index feb4509..6ab9ec2 100644
--- a/src/serializers/type_serializers/dict.rs
+++ b/src/serializers/type_serializers/dict.rs
@@ -150,4 +150,8 @@ impl TypeSerializer for DictSerializer {
     fn get_name(&self) -> &str {
         &self.name
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.key_serializer.retry_with_lax_check() || self.value_serializer.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/float.rs b/src/serializers/type_serializers/float.rs
index f2ccde1..9873854 100644
--- a/src/serializers/type_serializers/float.rs
+++ b/src/serializers/type_serializers/float.rs
@@ -131,4 +131,8 @@ impl TypeSerializer for FloatSerializer {
     fn get_name(&self) -> &str {
         Self::EXPECTED_TYPE
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        true
+    }
 }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 0e5050c..c217e82 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -148,6 +148,10 @@ impl TypeSerializer for GeneratorSerializer {
     fn get_name(&self) -> &str {
         Self::EXPECTED_TYPE
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.item_serializer.retry_with_lax_check()
+    }
 }
 
 #[pyclass(module = "pydantic_core._pydantic_core")]
diff --git a/src/serializers/type_serializers/json.rs b/src/serializers/type_serializers/json.rs
index 6b8b429..a62d0de 100644
--- a/src/serializers/type_serializers/json.rs
+++ b/src/serializers/type_serializers/json.rs
@@ -98,4 +98,8 @@ impl TypeSerializer for JsonSerializer {
     fn get_name(&self) -> &str {
         Self::EXPECTED_TYPE
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.serializer.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/json_or_python.rs b/src/serializers/type_serializers/json_or_python.rs
index 0b3f156..a4b0a2b 100644
--- a/src/serializers/type_serializers/json_or_python.rs
+++ b/src/serializers/type_serializers/json_or_python.rs
@@ -80,4 +80,8 @@ impl TypeSerializer for JsonOrPythonSerializer {
     fn get_name(&self) -> &str {
         &self.name
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.json.retry_with_lax_check() || self.python.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/set_frozenset.rs b/src/serializers/type_serializers/set_frozenset.rs
index 08f54c8..885b0bb 100644
--- a/src/serializers/type_serializers/set_frozenset.rs
+++ b/src/serializers/type_serializers/set_frozenset.rs
@@ -112,6 +112,10 @@ macro_rules! build_serializer {
             fn get_name(&self) -> &str {
                 &self.name
             }
+
+            fn retry_with_lax_check(&self) -> bool {
+                self.item_serializer.retry_with_lax_check()
+            }
         }
     };
 }
-- 
2.43.0


From aa00a8be4a41b803c43f997658e225390df7ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 44/80] fix: union serializer used a root model branch for
 instances of other root models

---
 src/serializers/type_serializers/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializers/type_serializers/model.rs b/src/serializers/type_serializers/model.rs
index 4bae243..4b16f5d 100644
--- a/src/serializers/type_serializers/model.rs
+++ b/src/serializers/type_serializers/model.rs
@@ -188,6 +188,9 @@ impl TypeSerializer for ModelSerializer {
                 ..model_extra
             };
             let py = value.py();
+            if root_extra.check.enabled() && !self.allow_value(value, &root_extra)? {
+                return Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err());
+            }
             let root = value.getattr(intern!(py, ROOT_FIELD)).map_err(|original_err| {
                 if root_extra.check.enabled() {
                     PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err()
-- 
2.43.0


From f81ec9b12961cf54f400d8228664fe7b0bec6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 45/80] fix: to_json read the property of a computed field
 twice

---
 src/serializers/computed_fields.rs | 43 ++++++------------------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 6e6786d..78ce2b3 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -2,7 +2,6 @@ use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyString};
 use pyo3::{intern, PyTraverseError, PyVisit};
 use serde::ser::SerializeMap;
-use serde::Serialize;
 
 use crate::build_tools::py_schema_error_type;
 use crate::definitions::DefinitionsBuilder;
@@ -91,18 +90,18 @@ impl ComputedFields {
                     field_name: Some(computed_field.property_name.as_str()),
                     ..*extra
                 };
-                let cfs = ComputedFieldSerializer {
-                    model,
-                    computed_field,
-                    include: next_include.as_ref(),
-                    exclude: next_exclude.as_ref(),
-                    extra: &field_extra,
-                };
+                let s = PydanticSerializer::new(
+                    &value,
+                    &computed_field.serializer,
+                    next_include.as_ref(),
+                    next_exclude.as_ref(),
+                    &field_extra,
+                );
                 let key = match extra.serialize_by_alias_or(computed_field.serialize_by_alias) {
                     true => computed_field.alias.as_str(),
                     false => computed_field.property_name.as_str(),
                 };
-                map.serialize_entry(key, &cfs)?;
+                map.serialize_entry(key, &s)?;
             }
         }
         Ok(())
@@ -175,14 +174,6 @@ impl ComputedField {
     }
 }
 
-pub(crate) struct ComputedFieldSerializer<'py> {
-    model: &'py Bound<'py, PyAny>,
-    computed_field: &'py ComputedField,
-    include: Option<&'py Bound<'py, PyAny>>,
-    exclude: Option<&'py Bound<'py, PyAny>>,
-    extra: &'py Extra<'py>,
-}
-
 impl_py_gc_traverse!(ComputedField { serializer });
 
 impl PyGcTraverse for ComputedFields {
@@ -190,21 +181,3 @@ impl PyGcTraverse for ComputedFields {
         self.0.py_gc_traverse(visit)
     }
 }
-
-impl_py_gc_traverse!(ComputedFieldSerializer<'_> { computed_field });
-
-impl Serialize for ComputedFieldSerializer<'_> {
-    fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let py = self.model.py();
-        let property_name_py = self.computed_field.property_name_py.bind(py);
-        let next_value = self.model.getattr(property_name_py).map_err(py_err_se_err)?;
-        let s = PydanticSerializer::new(
-            &next_value,
-            &self.computed_field.serializer,
-            self.include,
-            self.exclude,
-            self.extra,
-        );
-        s.serialize(serializer)
-    }
-}
-- 
2.43.0


From db8f3ea3708956e22ff87c8c00642bf6d4db4188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 46/80] fix: exclude_none of a computed field looked at the
 serialized value in to_python

---
 src/serializers/computed_fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 78ce2b3..01853dd 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -157,13 +157,13 @@ impl ComputedField {
 
         if let Some((next_include, next_exclude)) = filter.key_filter(property_name_py, include, exclude)? {
             let next_value = model.getattr(property_name_py)?;
+            if extra.exclude_none && next_value.is_none() {
+                return Ok(());
+            }
 
             let value = self
                 .serializer
                 .to_python(&next_value, next_include.as_ref(), next_exclude.as_ref(), extra)?;
-            if extra.exclude_none && value.is_none(py) {
-                return Ok(());
-            }
             let key = match extra.serialize_by_alias_or(self.serialize_by_alias) {
                 true => self.alias_py.bind(py),
                 false => property_name_py,
-- 
2.43.0


From 7872303b1d8e1c4b01009c76d0e02f3a0967611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 47/80] fix: to_json of a dataclass did not give computed
 fields the instance

---
 src/serializers/fields.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 01133f0..228ab84 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -317,7 +317,11 @@ impl GeneralFieldsSerializer {
     ) -> Result<(), S::Error> {
         if let Some(ref computed_fields) = self.computed_fields {
             if let Some(model) = model {
-                computed_fields.serde_serialize::<S>(model, map, &self.filter, include, exclude, extra)?;
+                let cf_extra = Extra {
+                    model: Some(model),
+                    ..*extra
+                };
+                computed_fields.serde_serialize::<S>(model, map, &self.filter, include, exclude, &cf_extra)?;
             }
         }
         Ok(())
-- 
2.43.0


From 27ea6ad533ae13d06953a49fc3142b5828d0a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 48/80] fix: warnings of a tried and rejected union branch were
 reported

---
 src/serializers/extra.rs                  | 10 ++++++++++
 src/serializers/type_serializers/union.rs |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 27c83ab..730e52f 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -410,6 +410,16 @@ impl CollectWarnings {
         }
     }
 
+    /// How many warnings have been registered so far
+    pub fn count(&self) -> usize {
+        self.warnings.lock().expect("lock poisoned").len()
+    }
+
+    /// Drop the warnings registered after the first `count`, for a union choice which was tried and rejected
+    pub fn truncate(&self, count: usize) {
+        self.warnings.lock().expect("lock poisoned").truncate(count);
+    }
+
     pub fn on_fallback_py(&self, field_type: &str, value: &Bound<'_, PyAny>, extra: &Extra) -> PyResult<()> {
         // special case for None as it's very common e.g. as a default value
         if value.is_none() {
diff --git a/src/serializers/type_serializers/union.rs b/src/serializers/type_serializers/union.rs
index 62779a6..1dfdd4d 100644
--- a/src/serializers/type_serializers/union.rs
+++ b/src/serializers/type_serializers/union.rs
@@ -84,12 +84,14 @@ fn union_serialize<S>(
     let mut new_extra = extra.clone();
     new_extra.check = SerCheck::Strict;
     let mut errors: SmallVec<[PyErr; SMALL_UNION_THRESHOLD]> = SmallVec::new();
+    let warnings_count = extra.warnings.count();
 
     for comb_serializer in choices {
         match selector(comb_serializer, &new_extra) {
             Ok(v) => return Ok(Some(v)),
             Err(err) => errors.push(err),
         }
+        extra.warnings.truncate(warnings_count);
     }
 
     // If extra.check is SerCheck::Strict, we're in a nested union
@@ -99,6 +101,7 @@ fn union_serialize<S>(
             if let Ok(v) = selector(comb_serializer, &new_extra) {
                 return Ok(Some(v));
             }
+            extra.warnings.truncate(warnings_count);
         }
     }
 
@@ -325,15 +328,18 @@ impl TaggedUnionSerializer {
             let tag_str = tag.to_string();
             if let Some(&serializer_index) = self.lookup.get(&tag_str) {
                 let selected_serializer = &self.choices[serializer_index];
+                let warnings_count = extra.warnings.count();
 
                 match selector(selected_serializer, &new_extra) {
                     Ok(v) => return Ok(Some(v)),
                     Err(_) => {
+                        extra.warnings.truncate(warnings_count);
                         if self.retry_with_lax_check() {
                             new_extra.check = SerCheck::Lax;
                             if let Ok(v) = selector(selected_serializer, &new_extra) {
                                 return Ok(Some(v));
                             }
+                            extra.warnings.truncate(warnings_count);
                         }
                     }
                 }
-- 
2.43.0


From 1bdeaf9ae30537297059d2fcaa3e09c965ef8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 49/80] fix: complex numbers with a nan or -0.0 imaginary part
 were serialized to malformed text

---
 src/serializers/type_serializers/complex.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/serializers/type_serializers/complex.rs b/src/serializers/type_serializers/complex.rs
index d55c4b2..4f762a4 100644
--- a/src/serializers/type_serializers/complex.rs
+++ b/src/serializers/type_serializers/complex.rs
@@ -78,10 +78,8 @@ pub fn complex_to_str(py_complex: &Bound<'_, PyComplex>) -> String {
     let im = py_complex.imag();
     let mut s = format!("{im}j");
     if re != 0.0 {
-        let mut sign = "";
-        if im >= 0.0 {
-            sign = "+";
-        }
+        // `-0.0` is formatted with its sign, nan without one
+        let sign = if im.is_nan() || im.is_sign_positive() { "+" } else { "" };
         s = format!("{re}{sign}{s}");
     }
     s
-- 
2.43.0


From 88c52508223f8ef1f77a6a4f5de37d1a7d75f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 50/80] fix: nested include/exclude was ignored where when_used
 says a serializer function is not to be used

---
 src/serializers/type_serializers/function.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..b4758bb 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -222,9 +222,10 @@ macro_rules! function_type_serializer {
                 match self.call(value, include, exclude, extra) {
                     // None for include/exclude here, as filtering should be done
                     Ok((true, v)) => self.return_serializer.to_python(v.bind(py), None, None, extra),
+                    // the function was not used, so no filtering was done
                     Ok((false, v)) => self
                         .get_fallback_serializer()
-                        .to_python(v.bind(py), None, None, extra),
+                        .to_python(v.bind(py), include, exclude, extra),
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra)?;
                         infer_to_python(value, include, exclude, extra)
@@ -266,7 +267,7 @@ macro_rules! function_type_serializer {
                         .serde_serialize(v.bind(py), serializer, None, None, extra),
                     Ok((false, v)) => {
                         self.get_fallback_serializer()
-                            .serde_serialize(v.bind(py), serializer, None, None, extra)
+                            .serde_serialize(v.bind(py), serializer, include, exclude, extra)
                     }
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra).map_err(py_err_se_err)?;
-- 
2.43.0


From f449c1dda97d179a9562a2067db0dca3d98da08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 51/80] fix: int enums did not accept members which don't fit
 in an i64 from JSON

---
 src/validators/literal.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index cac27dc..a412286 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -191,14 +191,22 @@ impl<T: Debug> LiteralLookup<T> {
         input: &'a I,
         strict: bool,
     ) -> ValResult<Option<&T>> {
-        if let Some(expected_ints) = &self.expected_int {
-            if let Ok(either_int) = input.validate_int(strict) {
-                // an int which doesn't fit in an i64 can't be in `expected_ints`
-                if let Ok(int) = either_int.into_inner().into_i64(py) {
-                    if let Some(id) = expected_ints.get(&int) {
-                        return Ok(Some(&self.values[*id]));
-                    }
-                }
+        if self.expected_int.is_none() && self.expected_py_dict.is_none() {
+            return Ok(None);
+        }
+        let Ok(either_int) = input.validate_int(strict) else {
+            return Ok(None);
+        };
+        let py_int = either_int.into_inner().into_pyobject(py)?;
+        if let Ok(int) = py_int.extract::<i64>() {
+            if let Some(id) = self.expected_int.as_ref().and_then(|ints| ints.get(&int)) {
+                return Ok(Some(&self.values[*id]));
+            }
+        } else if let Some(expected_py_dict) = &self.expected_py_dict {
+            // ints which don't fit in an i64 are kept in `expected_py_dict`
+            if let Some(v) = expected_py_dict.bind(py).get_item(&py_int)? {
+                let id: usize = v.extract()?;
+                return Ok(Some(&self.values[id]));
             }
         }
         Ok(None)
-- 
2.43.0


From 40591667c8921bb5d91d447ebdc322823099429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 52/80] fix: wrap validator panicked when its handler was still
 running in another thread

---
 src/validators/function.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index f10a4a2..17938b1 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -381,9 +381,11 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        let handler = handler.borrow();
-        state.exactness = handler.validator.exactness;
-        state.fields_set_count = handler.validator.fields_set_count;
+        // if another thread is still running the handler there's no final state to take over
+        if let Ok(handler) = handler.try_borrow() {
+            state.exactness = handler.validator.exactness;
+            state.fields_set_count = handler.validator.fields_set_count;
+        }
         result
     }
 
-- 
2.43.0


From 3ce76aab6d75cc32c36ffdf98957f0a8c34518d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 53/80] fix: ValidationError.json() gave custom errors a URL,
 unlike errors()

---
 src/errors/validation_exception.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 5f8fe78..004a9a0 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -658,7 +658,10 @@ impl Serialize for PyLineErrorSerializer<'_> {
             }
         }
         if let Some(url_prefix) = self.url_prefix {
-            map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+            // Don't add URLs for custom errors
+            if !matches!(self.line_error.error_type, ErrorType::CustomError { .. }) {
+                map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+            }
         }
         map.end()
     }
-- 
2.43.0


From edc404ca4675a588844ce9b65245a4eb928b49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 54/80] fix: context entries named error_type or
 message_template of custom errors were dropped

---
 src/errors/types.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 0c75e1e..eea2b68 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -747,20 +747,18 @@ impl ErrorType {
     }
 
     pub fn py_dict(&self, py: Python) -> PyResult<Option<Py<PyDict>>> {
+        if let Self::CustomError { context, .. } = self {
+            // Custom error type and message are handled separately by the caller.
+            // They are added to the root of the ErrorDetails.
+            return context
+                .as_ref()
+                .map(|ctx| Ok(ctx.bind(py).copy()?.unbind()))
+                .transpose();
+        }
+
         let dict = PyDict::new(py);
         let custom_ctx_used = self.py_dict_update_ctx(py, &dict)?;
-
-        if let Self::CustomError { .. } = self {
-            if custom_ctx_used {
-                // Custom error type and message are handled separately by the caller.
-                // They are added to the root of the ErrorDetails.
-                dict.del_item("error_type")?;
-                dict.del_item("message_template")?;
-                Ok(Some(dict.into()))
-            } else {
-                Ok(None)
-            }
-        } else if custom_ctx_used || !dict.is_empty() {
+        if custom_ctx_used || !dict.is_empty() {
             Ok(Some(dict.into()))
         } else {
             Ok(None)
-- 
2.43.0


From e0d407675ccb5e6f7f4636ac95157613f650428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:02 +0000
Subject: [PATCH 55/80] fix: placeholders occurring in context values were
 replaced in error messages

---
 src/errors/types.rs           | 43 +++++++++++++++++++++++++----------
 src/errors/value_exception.rs | 32 ++++++++++++++------------
 2 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index eea2b68..3b0d4c0 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -435,26 +435,45 @@ error_types! {
 
 macro_rules! render {
     ($template:ident, $($value:ident),* $(,)?) => {
-        Ok(
-            $template
-            $(
-                .replace(concat!("{", stringify!($value), "}"), $value)
-            )*
-        )
+        Ok(fill_template(
+            $template,
+            &[$((concat!("{", stringify!($value), "}"), $value)),*],
+        ))
     };
 }
 
 macro_rules! to_string_render {
     ($template:ident, $($value:ident),* $(,)?) => {
-        Ok(
-            $template
-            $(
-                .replace(concat!("{", stringify!($value), "}"), &$value.to_string())
-            )*
-        )
+        Ok(fill_template(
+            $template,
+            &[$((concat!("{", stringify!($value), "}"), &$value.to_string())),*],
+        ))
     };
 }
 
+/// Replace the placeholders in a message template with their values, in one pass so that placeholders which
+/// happen to occur in a value (e.g. taken from the input) are left alone.
+pub(super) fn fill_template(template: &str, values: &[(&str, &str)]) -> String {
+    let mut message = String::with_capacity(template.len());
+    let mut rest = template;
+    while let Some(start) = rest.find('{') {
+        message.push_str(&rest[..start]);
+        rest = &rest[start..];
+        let filled = values
+            .iter()
+            .find_map(|(placeholder, value)| rest.strip_prefix(placeholder).map(|after| (*value, after)));
+        if let Some((value, after)) = filled {
+            message.push_str(value);
+            rest = after;
+        } else {
+            message.push('{');
+            rest = &rest[1..];
+        }
+    }
+    message.push_str(rest);
+    message
+}
+
 fn plural_s<T: From<u8> + PartialEq>(value: T) -> &'static str {
     if value == 1.into() {
         ""
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index 133f787..d16f354 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -6,6 +6,7 @@ use crate::input::InputType;
 use crate::tools::extract_i64;
 
 use super::line_error::ToErrorValue;
+use super::types::fill_template;
 use super::{ErrorType, ValError};
 
 #[pyclass(extends=PyException, module="pydantic_core._pydantic_core")]
@@ -123,21 +124,24 @@ impl PydanticCustomError {
     }
 
     pub fn format_message(message_template: &str, context: Option<&Bound<'_, PyDict>>) -> PyResult<String> {
-        let mut message = message_template.to_string();
-        if let Some(ctx) = context {
-            for (key, value) in ctx.iter() {
-                let key = key.downcast::<PyString>()?;
-                if let Ok(py_str) = value.downcast::<PyString>() {
-                    message = message.replace(&format!("{{{}}}", key.to_str()?), py_str.to_str()?);
-                } else if let Some(value_int) = extract_i64(&value) {
-                    message = message.replace(&format!("{{{}}}", key.to_str()?), &value_int.to_string());
-                } else {
-                    // fallback for anything else just in case
-                    message = message.replace(&format!("{{{}}}", key.to_str()?), &value.to_string());
-                }
-            }
+        let Some(ctx) = context else {
+            return Ok(message_template.to_string());
+        };
+        let mut values = Vec::with_capacity(ctx.len());
+        for (key, value) in ctx.iter() {
+            let key = key.downcast::<PyString>()?;
+            let value = if let Ok(py_str) = value.downcast::<PyString>() {
+                py_str.to_str()?.to_string()
+            } else if let Some(value_int) = extract_i64(&value) {
+                value_int.to_string()
+            } else {
+                // fallback for anything else just in case
+                value.to_string()
+            };
+            values.push((format!("{{{}}}", key.to_str()?), value));
         }
-        Ok(message)
+        let values: Vec<(&str, &str)> = values.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
+        Ok(fill_template(message_template, &values))
     }
 }
 
-- 
2.43.0


From ed282b96910ac8097ac0be86975cfa6652f79ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 56/80] fix: big integer and decimal bounds were rebuilt as
 floats by from_exception_data (or refused)

---
 src/errors/types.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 3b0d4c0..73dbe80 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use pyo3::exceptions::{PyKeyError, PyTypeError};
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
-use pyo3::types::{PyDict, PyList};
+use pyo3::types::{PyDict, PyInt, PyList};
 
 use ahash::AHashMap;
 use num_bigint::BigInt;
@@ -14,6 +14,7 @@ use strum_macros::EnumIter;
 
 use crate::input::{InputType, Int};
 use crate::tools::{extract_i64, py_err, py_error_type};
+use crate::validators::decimal::get_decimal_type;
 
 use super::PydanticCustomError;
 
@@ -823,6 +824,11 @@ impl FromPyObject<'_> for Number {
     fn extract_bound(obj: &Bound<'_, PyAny>) -> PyResult<Self> {
         if let Some(int) = extract_i64(obj) {
             Ok(Number::Int(int))
+        } else if let Ok(int) = obj.downcast::<PyInt>() {
+            Ok(Number::BigInt(int.extract()?))
+        } else if obj.is_instance(get_decimal_type(obj.py()))? {
+            // a float would change the text of the number
+            Ok(Number::String(obj.str()?.to_string()))
         } else if let Ok(float) = obj.extract::<f64>() {
             Ok(Number::Float(float))
         } else if let Ok(string) = obj.extract::<String>() {
-- 
2.43.0


From 340ba619cc76c2e52e8f73b76daa515476fbfead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 57/80] fix: ValidationErrors with custom errors could be
 pickled and copied but not restored

---
 src/errors/types.rs                | 15 +++++++++++++++
 src/errors/validation_exception.rs | 15 ++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 73dbe80..de0c228 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -494,6 +494,21 @@ impl ErrorType {
         }
     }
 
+    /// Get the `PydanticCustomError` which makes this error type, if it's a custom error
+    pub fn as_py_custom_error<'py>(&self, py: Python<'py>) -> PyResult<Option<Bound<'py, PyAny>>> {
+        match self {
+            Self::CustomError {
+                error_type,
+                message_template,
+                context,
+            } => py
+                .get_type::<PydanticCustomError>()
+                .call1((error_type, message_template, context))
+                .map(Some),
+            _ => Ok(None),
+        }
+    }
+
     pub fn message_template_python(&self) -> &'static str {
         match self {
             Self::NoSuchAttribute {..} => "Object has no attribute '{attribute}'",
diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 004a9a0..a68cd11 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -393,13 +393,14 @@ impl ValidationError {
         let py = slf.py();
         let callable = slf.getattr("from_exception_data")?;
         let borrow = slf.try_borrow()?;
-        let args = (
-            &borrow.title,
-            borrow.errors(py, include_url_env(py), true, true)?,
-            borrow.input_type,
-            borrow.hide_input,
-        )
-            .into_pyobject(py)?;
+        let errors = borrow.errors(py, include_url_env(py), true, true)?;
+        for (line_error, details) in borrow.line_errors.iter().zip(errors.bind(py)) {
+            // the type string alone is not enough to rebuild custom errors
+            if let Some(custom_error) = line_error.error_type.as_py_custom_error(py)? {
+                details.set_item("type", custom_error)?;
+            }
+        }
+        let args = (&borrow.title, errors, borrow.input_type, borrow.hide_input).into_pyobject(py)?;
         Ok((callable, args))
     }
 }
-- 
2.43.0


From fd35ca3a5acc5da6352c65a8b521ed0789aa477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 58/80] fix: TzInfo's hash differed from that of the equal
 datetime.timezone

---
 src/input/datetime.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 4bb837e..e2f002a 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -9,10 +9,7 @@ use pyo3::IntoPyObjectExt;
 use speedate::MicrosecondsPrecisionOverflowBehavior;
 use speedate::{Date, DateTime, Duration, ParseError, Time, TimeConfig};
 use std::borrow::Cow;
-use std::collections::hash_map::DefaultHasher;
 use std::fmt::Write;
-use std::hash::Hash;
-use std::hash::Hasher;
 
 use strum::EnumMessage;
 
@@ -619,10 +616,9 @@ impl TzInfo {
         result
     }
 
-    fn __hash__(&self) -> u64 {
-        let mut hasher = DefaultHasher::new();
-        self.seconds.hash(&mut hasher);
-        hasher.finish()
+    /// equal to a `datetime.timezone` of the same offset, so the hash has to be the same too
+    fn __hash__(&self, py: Python) -> PyResult<isize> {
+        self.utcoffset(py, py.None().bind(py))?.hash()
     }
 
     fn __richcmp__(&self, other: &Bound<'_, PyAny>, op: CompareOp) -> PyResult<Py<PyAny>> {
@@ -654,7 +650,7 @@ impl TryFrom<i32> for TzInfo {
     type Error = PyErr;
 
     fn try_from(seconds: i32) -> PyResult<Self> {
-        if seconds.abs() >= 86400 {
+        if seconds.unsigned_abs() >= 86400 {
             Err(PyValueError::new_err(format!(
                 "TzInfo offset must be strictly between -86400 and 86400 (24 hours) seconds, got {seconds}"
             )))
-- 
2.43.0


From bd60fadc5e583dcc3d90d5f3b69fe15918873d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 59/80] fix: decimal timestamps were read through inexact
 floats or in the wrong unit

---
 src/input/datetime.rs | 73 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index e2f002a..453e5b2 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -368,7 +368,11 @@ pub fn bytes_as_datetime<'py>(
             unix_timestamp_offset: Some(0),
         },
     ) {
-        Ok(dt) => Ok(dt.into()),
+        // speedate goes through a float for decimal timestamps, which is not exact
+        Ok(dt) => match parse_decimal_timestamp(bytes) {
+            Some((seconds, microseconds)) => seconds_as_datetime(input, seconds, microseconds),
+            None => Ok(dt.into()),
+        },
         Err(err) => Err(ValError::new(
             ErrorType::DatetimeParsing {
                 error: Cow::Borrowed(err.get_documentation().unwrap_or_default()),
@@ -421,16 +425,67 @@ pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64
     nan_check!(input, timestamp, DatetimeParsing);
     // the integer part is rounded down, so the fraction to add to it is positive for negative timestamps too
     let floor = timestamp.floor();
-    // as in speedate, timestamps beyond this are in milliseconds
-    let microseconds_per_unit = if floor.abs() > 20_000_000_000.0 {
-        1_000.0
-    } else {
-        1_000_000.0
-    };
-    let microseconds = (timestamp - floor) * microseconds_per_unit;
+    let fraction = timestamp - floor;
+    let floor = floor as i64;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, floor as i64, microseconds.round() as u32)
+    if timestamp.abs() > MS_WATERSHED as f64 {
+        let microseconds = floor.rem_euclid(1_000) as u32 * 1_000 + (fraction * 1_000.0).round() as u32;
+        seconds_as_datetime(input, floor.div_euclid(1_000), microseconds)
+    } else {
+        seconds_as_datetime(input, floor, (fraction * 1_000_000.0).round() as u32)
+    }
+}
+
+/// As in speedate, timestamps beyond this are in milliseconds
+const MS_WATERSHED: i64 = 20_000_000_000;
+
+/// Like `int_as_datetime`, but the timestamp is in seconds whatever its size
+fn seconds_as_datetime<'py>(
+    input: &(impl Input<'py> + ?Sized),
+    seconds: i64,
+    microseconds: u32,
+) -> ValResult<EitherDateTime<'py>> {
+    let timestamp = if seconds.unsigned_abs() > MS_WATERSHED as u64 {
+        seconds.saturating_mul(1_000)
+    } else {
+        seconds
+    };
+    int_as_datetime(input, timestamp, microseconds)
+}
+
+/// Parse a timestamp with a decimal point exactly: seconds (rounded down) and microseconds (rounded to nearest),
+/// `None` if it isn't one
+fn parse_decimal_timestamp(bytes: &[u8]) -> Option<(i64, u32)> {
+    let (negative, digits) = match bytes {
+        [b'-', digits @ ..] => (true, digits),
+        [b'+', digits @ ..] | digits => (false, digits),
+    };
+    let dot = digits.iter().position(|&b| b == b'.')?;
+    let (integer, fraction) = (&digits[..dot], &digits[dot + 1..]);
+    if integer.is_empty() || !integer.iter().chain(fraction).all(u8::is_ascii_digit) {
+        return None;
+    }
+    let integer: i64 = std::str::from_utf8(integer).ok()?.parse().ok()?;
+    let in_milliseconds =
+        integer > MS_WATERSHED || (integer == MS_WATERSHED && fraction.iter().any(|&digit| digit != b'0'));
+    let places = if in_milliseconds { 3 } else { 6 };
+
+    let mut microseconds = i128::from(integer);
+    for place in 0..places {
+        let digit = fraction.get(place).map_or(0, |digit| digit - b'0');
+        microseconds = microseconds * 10 + i128::from(digit);
+    }
+    if fraction.get(places).is_some_and(|&digit| digit >= b'5') {
+        microseconds += 1;
+    }
+    if negative {
+        microseconds = -microseconds;
+    }
+    Some((
+        i64::try_from(microseconds.div_euclid(1_000_000)).ok()?,
+        microseconds.rem_euclid(1_000_000) as u32,
+    ))
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From e5d7d893a8f01d24bc8166e178a242f19130415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:29 +0000
Subject: [PATCH 60/80] fix: truncated microseconds let junk after a
 timedelta's fraction through

---
 src/input/datetime.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 453e5b2..617a7af 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -567,18 +567,39 @@ pub fn bytes_as_timedelta<'py>(
     bytes: &[u8],
     microseconds_overflow_behavior: MicrosecondsPrecisionOverflowBehavior,
 ) -> ValResult<EitherTimedelta<'py>> {
+    // speedate truncates anything there is after the microseconds, here only digits are
+    let truncate = matches!(
+        microseconds_overflow_behavior,
+        MicrosecondsPrecisionOverflowBehavior::Truncate
+    );
+    let bytes = if truncate { truncate_microseconds(bytes) } else { bytes };
     match Duration::parse_bytes_with_config(
         bytes,
         &TimeConfig {
-            microseconds_precision_overflow_behavior: microseconds_overflow_behavior,
+            microseconds_precision_overflow_behavior: MicrosecondsPrecisionOverflowBehavior::Error,
             unix_timestamp_offset: Some(0),
         },
     ) {
         Ok(duration) => Ok(check_python_range(input, duration)?.into()),
+        Err(ParseError::SecondFractionTooLong) if truncate => {
+            Err(map_timedelta_err(input, ParseError::ExtraCharacters))
+        }
         Err(err) => Err(map_timedelta_err(input, err)),
     }
 }
 
+/// Cut the fraction at the end of e.g. `1 day, 00:00:01.1234567` after six digits
+fn truncate_microseconds(bytes: &[u8]) -> &[u8] {
+    let fraction_digits = bytes.iter().rev().take_while(|b| b.is_ascii_digit()).count();
+    let start = bytes.len() - fraction_digits;
+    let is_fraction = start > 0 && matches!(bytes[start - 1], b'.' | b',');
+    if is_fraction && fraction_digits > 6 {
+        &bytes[..start + 6]
+    } else {
+        bytes
+    }
+}
+
 /// `timedelta.min` is exactly -999999999 days, while `timedelta.max` and `Duration` go one day further (less 1us)
 fn check_python_range(input: impl ToErrorValue, duration: Duration) -> ValResult<Duration> {
     if !duration.positive && duration.day == 999_999_999 && (duration.second > 0 || duration.microsecond > 0) {
-- 
2.43.0


From 5b6f4b344588be45f3efdb18b0a9b02bd517fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 61/80] fix: timedelta subclasses lost microseconds

---
 src/input/datetime.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 617a7af..a49d142 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -6,6 +6,7 @@ use pyo3::pyclass::CompareOp;
 use pyo3::types::PyTuple;
 use pyo3::types::{PyDate, PyDateTime, PyDelta, PyDeltaAccess, PyDict, PyTime, PyTzInfo};
 use pyo3::IntoPyObjectExt;
+use pyo3::PyTypeInfo;
 use speedate::MicrosecondsPrecisionOverflowBehavior;
 use speedate::{Date, DateTime, Duration, ParseError, Time, TimeConfig};
 use std::borrow::Cow;
@@ -166,9 +167,17 @@ pub fn pytimedelta_exact_as_duration(py_timedelta: &Bound<'_, PyDelta>) -> Durat
 }
 
 pub fn pytimedelta_subclass_as_duration(py_timedelta: &Bound<'_, PyDelta>) -> PyResult<Duration> {
-    let total_seconds: f64 = py_timedelta
-        .call_method0(intern!(py_timedelta.py(), "total_seconds"))?
-        .extract()?;
+    let py = py_timedelta.py();
+    let total_seconds = intern!(py, "total_seconds");
+    if py_timedelta
+        .get_type()
+        .getattr(total_seconds)?
+        .is(&PyDelta::type_object(py).getattr(total_seconds)?)
+    {
+        // the subclass has no other idea of its duration, and the float isn't precise for long durations
+        return Ok(pytimedelta_exact_as_duration(py_timedelta));
+    }
+    let total_seconds: f64 = py_timedelta.call_method0(total_seconds)?.extract()?;
     if total_seconds.is_nan() {
         return py_err!(PyValueError; "NaN values not permitted");
     }
-- 
2.43.0


From 6d23f149f419397a049b8b1f37b479998019ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 62/80] fix: unicode_string() overwrote the credentials of a
 URL instead of its punycode host

---
 src/url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index da63be5..d2d0023 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -9,7 +9,7 @@ use pyo3::pyclass::CompareOp;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyType};
 use pyo3::{intern, prelude::*, IntoPyObjectExt};
-use url::Url;
+use url::{Position, Url};
 
 use crate::tools::SchemaDict;
 use crate::SchemaValidator;
@@ -484,7 +484,7 @@ fn unicode_url(lib_url: &Url) -> String {
         Some(url::Host::Domain(domain)) if is_punnycode_domain(lib_url, domain) => {
             if let Some(decoded) = decode_punycode(domain) {
                 // replace the range containing the punycode domain with the decoded domain
-                let start = lib_url.scheme().len() + 3;
+                let start = lib_url[..Position::BeforeHost].len();
                 s.replace_range(start..start + domain.len(), &decoded);
             }
             s
-- 
2.43.0


From 23981c56330e66d8c20f2a9505c9dfb61cb960f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 63/80] fix: MultiHostUrl.build refused the host dicts that
 hosts() returns

---
 src/url.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index d2d0023..0d0507d 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -440,11 +440,12 @@ impl FromPyObject<'_> for UrlHostParts {
     fn extract_bound(ob: &Bound<'_, PyAny>) -> PyResult<Self> {
         let py = ob.py();
         let dict = ob.downcast::<PyDict>()?;
+        // like the dicts of `hosts()`, where what is missing is `None`
         Ok(UrlHostParts {
-            username: dict.get_as(intern!(py, "username"))?,
-            password: dict.get_as(intern!(py, "password"))?,
-            host: dict.get_as(intern!(py, "host"))?,
-            port: dict.get_as(intern!(py, "port"))?,
+            username: dict.get_as::<Option<_>>(intern!(py, "username"))?.flatten(),
+            password: dict.get_as::<Option<_>>(intern!(py, "password"))?.flatten(),
+            host: dict.get_as::<Option<_>>(intern!(py, "host"))?.flatten(),
+            port: dict.get_as::<Option<_>>(intern!(py, "port"))?.flatten(),
         })
     }
 }
-- 
2.43.0


From 4e52dcb0371fca216bb8ba4401550bc210aa1158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 64/80] fix: max_length of URLs counted bytes, not characters

---
 src/validators/url.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index d220d60..d2c539d 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -137,7 +137,7 @@ impl UrlValidator {
 
     fn check_length<'py>(&self, input: &(impl Input<'py> + ?Sized), url_str: &str) -> ValResult<()> {
         if let Some(max_length) = self.max_length {
-            if url_str.len() > max_length {
+            if url_str.chars().count() > max_length {
                 return Err(ValError::new(
                     ErrorType::UrlTooLong {
                         max_length,
@@ -282,7 +282,7 @@ impl MultiHostUrlValidator {
                 let cow = either_str.as_cow()?;
                 let url_str = cow.as_ref();
 
-                self.check_length(input, || url_str.len())?;
+                self.check_length(input, || url_str.chars().count())?;
 
                 parse_multihost_url(url_str, input, strict).map(EitherMultiHostUrl::Rust)
             }
@@ -290,10 +290,10 @@ impl MultiHostUrlValidator {
                 // we don't need to worry about whether the url was parsed in strict mode before,
                 // even if it was, any syntax errors would have been fixed by the first validation
                 if let Some(multi_url) = downcast_python_input::<PyMultiHostUrl>(input) {
-                    self.check_length(input, || multi_url.get().__str__().len())?;
+                    self.check_length(input, || multi_url.get().__str__().chars().count())?;
                     Ok(EitherMultiHostUrl::Py(multi_url.clone()))
                 } else if let Some(py_url) = downcast_python_input::<PyUrl>(input) {
-                    self.check_length(input, || py_url.get().url().as_str().len())?;
+                    self.check_length(input, || py_url.get().url().as_str().chars().count())?;
                     Ok(EitherMultiHostUrl::Rust(PyMultiHostUrl::new(
                         py_url.get().url().clone(),
                         None,
-- 
2.43.0


From 58c01a569943c4d7f00298769ace2b9b186ec0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 65/80] fix: a Url with commas in its host was not split into
 the hosts of a MultiHostUrl

---
 src/validators/url.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index d2c539d..e779bac 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -294,10 +294,8 @@ impl MultiHostUrlValidator {
                     Ok(EitherMultiHostUrl::Py(multi_url.clone()))
                 } else if let Some(py_url) = downcast_python_input::<PyUrl>(input) {
                     self.check_length(input, || py_url.get().url().as_str().chars().count())?;
-                    Ok(EitherMultiHostUrl::Rust(PyMultiHostUrl::new(
-                        py_url.get().url().clone(),
-                        None,
-                    )))
+                    // a comma may separate hosts here, while it is part of the one host of a `Url`
+                    parse_multihost_url(py_url.get().url().as_str(), input, strict).map(EitherMultiHostUrl::Rust)
                 } else {
                     Err(ValError::new(ErrorTypeDefaults::UrlType, input))
                 }
-- 
2.43.0


From 29c2cfa3e677cea837ec0967b5874bb938ab5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:31 +0000
Subject: [PATCH 66/80] fix: hosts of a MultiHostUrl could contain the comma
 that separates them

---
 src/validators/url.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index e779bac..4a44468 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -453,6 +453,11 @@ fn parse_multihost_url<'py>(
 
     let reconstructed_url = format!("{prefix}{}", &url_str[start..]);
     let ref_url = parse_url(&reconstructed_url, input, strict)?;
+    // e.g. an encoded comma, would separate hosts once the URL is turned into a string
+    let has_comma = |url: &Url| url.host_str().is_some_and(|host| host.contains(','));
+    if has_comma(&ref_url) {
+        return parsing_err!(ParseError::InvalidDomainCharacter);
+    }
 
     if hosts.is_empty() {
         // if there's no one host (e.g. no `,`), we allow it to be empty to allow for default hosts
@@ -473,6 +478,9 @@ fn parse_multihost_url<'py>(
         if extra_urls.iter().any(|url| !url.has_host()) {
             return parsing_err!(ParseError::EmptyHost);
         }
+        if extra_urls.iter().any(has_comma) {
+            return parsing_err!(ParseError::InvalidDomainCharacter);
+        }
 
         Ok(PyMultiHostUrl::new(ref_url, Some(extra_urls)))
     }
-- 
2.43.0


From b9173922e8eec8325aba267e5deabb258e51c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 67/80] fix: newlines between the slashes of a MultiHostUrl hid
 its hosts' commas

---
 src/validators/url.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index 4a44468..b05cbb6 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -421,7 +421,8 @@ fn parse_multihost_url<'py>(
     loop {
         let peek = chars.peek();
         match peek {
-            Some(&'/' | &'\\') => {
+            // tabs and newlines are ignored anywhere in a URL
+            Some(&'/' | &'\\' | &'\t' | &'\n' | &'\r') => {
                 chars.next();
             }
             _ => break,
-- 
2.43.0


From 99c8101753d0b054bb5a9b62ec48899c6f133312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 68/80] fix: a path within the hosts of a MultiHostUrl moved to
 its end

---
 src/validators/url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index b05cbb6..2ddc502 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -479,7 +479,9 @@ fn parse_multihost_url<'py>(
         if extra_urls.iter().any(|url| !url.has_host()) {
             return parsing_err!(ParseError::EmptyHost);
         }
-        if extra_urls.iter().any(has_comma) {
+        // what follows a host (e.g. in `foo://a:\,b`) can only belong to the last one
+        let has_more = |url: &Url| !matches!(url.path(), "" | "/") || url.query().or(url.fragment()).is_some();
+        if extra_urls.iter().any(|url| has_comma(url) || has_more(url)) {
             return parsing_err!(ParseError::InvalidDomainCharacter);
         }
 
-- 
2.43.0


From c8b5fc78c0b98062c29596f03bd4ed8e92cf113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 69/80] fix: a prebuilt model validator (e.g. of an unpickled
 SchemaValidator) refused validate_assignment

---
 src/validators/prebuilt.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/validators/prebuilt.rs b/src/validators/prebuilt.rs
index 8aead86..12eb981 100644
--- a/src/validators/prebuilt.rs
+++ b/src/validators/prebuilt.rs
@@ -2,7 +2,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyDict;
 
 use crate::common::prebuilt::get_prebuilt;
-use crate::errors::ValResult;
+use crate::errors::{LocItem, ValResult};
 use crate::input::Input;
 
 use super::ValidationState;
@@ -40,6 +40,32 @@ impl Validator for PrebuiltValidator {
         self.schema_validator.get().validator.validate(py, input, state)
     }
 
+    fn default_value<'py>(
+        &self,
+        py: Python<'py>,
+        outer_loc: Option<impl Into<LocItem>>,
+        state: &mut ValidationState<'_, 'py>,
+    ) -> ValResult<Option<PyObject>> {
+        self.schema_validator
+            .get()
+            .validator
+            .default_value(py, outer_loc, state)
+    }
+
+    fn validate_assignment<'py>(
+        &self,
+        py: Python<'py>,
+        obj: &Bound<'py, PyAny>,
+        field_name: &str,
+        field_value: &Bound<'py, PyAny>,
+        state: &mut ValidationState<'_, 'py>,
+    ) -> ValResult<PyObject> {
+        self.schema_validator
+            .get()
+            .validator
+            .validate_assignment(py, obj, field_name, field_value, state)
+    }
+
     fn get_name(&self) -> &str {
         self.schema_validator.get().validator.get_name()
     }
-- 
2.43.0


From 8462e784f266bb1a88e426efa8e8848d1b321ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:48 +0000
Subject: [PATCH 70/80] fix: serialize_as_any returned models within Any
 unserialized, or took them and recursive models for circular references

---
 src/serializers/extra.rs                      | 14 ++++++++++---
 src/serializers/fields.rs                     |  8 ++++----
 src/serializers/infer.rs                      |  4 ++--
 src/serializers/type_serializers/dataclass.rs | 20 +++++++++++++------
 .../type_serializers/definitions.rs           |  8 ++++++++
 src/serializers/type_serializers/model.rs     |  8 ++++----
 6 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 730e52f..882019a 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -57,11 +57,19 @@ impl DuckTypingSerMode {
         }
     }
 
-    pub fn next_mode(self) -> Self {
+    /// The mode to serialize a value in with the serializer of its own type
+    pub fn inferred(self) -> Self {
         match self {
             DuckTypingSerMode::SchemaBased => DuckTypingSerMode::SchemaBased,
-            DuckTypingSerMode::NeedsInference => DuckTypingSerMode::Inferred,
-            DuckTypingSerMode::Inferred => DuckTypingSerMode::NeedsInference,
+            DuckTypingSerMode::NeedsInference | DuckTypingSerMode::Inferred => DuckTypingSerMode::Inferred,
+        }
+    }
+
+    /// The mode to serialize what a value consists of in
+    pub fn inner(self) -> Self {
+        match self {
+            DuckTypingSerMode::SchemaBased => DuckTypingSerMode::SchemaBased,
+            DuckTypingSerMode::NeedsInference | DuckTypingSerMode::Inferred => DuckTypingSerMode::NeedsInference,
         }
     }
 }
diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 228ab84..fb48e3d 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -355,13 +355,13 @@ impl TypeSerializer for GeneralFieldsSerializer {
         // If there is a model, skip this step, as BaseModel and dataclass duck typing
         // is handled in their respective serializers
         if extra.model.is_none() {
-            let duck_typing_ser_mode = extra.duck_typing_ser_mode.next_mode();
+            let duck_typing_ser_mode = extra.duck_typing_ser_mode.inner();
             let td_extra = Extra {
                 model,
                 duck_typing_ser_mode,
                 ..*extra
             };
-            if td_extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+            if extra.duck_typing_ser_mode == DuckTypingSerMode::NeedsInference {
                 return infer_to_python(value, include, exclude, &td_extra);
             }
         }
@@ -417,13 +417,13 @@ impl TypeSerializer for GeneralFieldsSerializer {
         // If there is a model, skip this step, as BaseModel and dataclass duck typing
         // is handled in their respective serializers
         if extra.model.is_none() {
-            let duck_typing_ser_mode = extra.duck_typing_ser_mode.next_mode();
+            let duck_typing_ser_mode = extra.duck_typing_ser_mode.inner();
             let td_extra = Extra {
                 model,
                 duck_typing_ser_mode,
                 ..*extra
             };
-            if td_extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+            if extra.duck_typing_ser_mode == DuckTypingSerMode::NeedsInference {
                 return infer_serialize(value, serializer, include, exclude, &td_extra);
             }
         }
diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 96e5e15..750b9bd 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -106,7 +106,7 @@ pub(crate) fn infer_to_python_known(
             extra.rec_guard,
             extra.serialize_unknown,
             extra.fallback,
-            extra.duck_typing_ser_mode,
+            extra.duck_typing_ser_mode.inferred(),
             extra.context,
         );
         serializer.serializer.to_python(value, include, exclude, &extra)
@@ -495,7 +495,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
                 extra.rec_guard,
                 extra.serialize_unknown,
                 extra.fallback,
-                extra.duck_typing_ser_mode,
+                extra.duck_typing_ser_mode.inferred(),
                 extra.context,
             );
             let pydantic_serializer =
diff --git a/src/serializers/type_serializers/dataclass.rs b/src/serializers/type_serializers/dataclass.rs
index a080a9b..923f214 100644
--- a/src/serializers/type_serializers/dataclass.rs
+++ b/src/serializers/type_serializers/dataclass.rs
@@ -141,13 +141,13 @@ impl TypeSerializer for DataclassSerializer {
         extra: &Extra,
     ) -> PyResult<PyObject> {
         let model = Some(value);
-        let duck_typing_ser_mode = extra.duck_typing_ser_mode.next_mode();
+        let duck_typing_ser_mode = extra.duck_typing_ser_mode.inner();
         let dc_extra = Extra {
             model,
             duck_typing_ser_mode,
             ..*extra
         };
-        if dc_extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+        if extra.duck_typing_ser_mode == DuckTypingSerMode::NeedsInference {
             return infer_to_python(value, include, exclude, &dc_extra);
         }
         if self.allow_value(value, &dc_extra)? {
@@ -161,7 +161,11 @@ impl TypeSerializer for DataclassSerializer {
                     dc_extra,
                 )?;
 
-                fields_serializer.add_computed_fields_python(model, &output_dict, include, exclude, extra)?;
+                let cf_extra = Extra {
+                    duck_typing_ser_mode,
+                    ..*extra
+                };
+                fields_serializer.add_computed_fields_python(model, &output_dict, include, exclude, &cf_extra)?;
                 Ok(output_dict.into())
             } else {
                 let inner_value = self.get_inner_value(value)?;
@@ -190,14 +194,14 @@ impl TypeSerializer for DataclassSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> Result<S::Ok, S::Error> {
-        let duck_typing_ser_mode = extra.duck_typing_ser_mode.next_mode();
+        let duck_typing_ser_mode = extra.duck_typing_ser_mode.inner();
         let model = Some(value);
         let dc_extra = Extra {
             model,
             duck_typing_ser_mode,
             ..*extra
         };
-        if dc_extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+        if extra.duck_typing_ser_mode == DuckTypingSerMode::NeedsInference {
             return infer_serialize(value, serializer, include, exclude, &dc_extra);
         }
         if self.allow_value(value, &dc_extra).map_err(py_err_se_err)? {
@@ -211,7 +215,11 @@ impl TypeSerializer for DataclassSerializer {
                     exclude,
                     dc_extra,
                 )?;
-                fields_serializer.add_computed_fields_json::<S>(model, &mut map, include, exclude, extra)?;
+                let cf_extra = Extra {
+                    duck_typing_ser_mode,
+                    ..*extra
+                };
+                fields_serializer.add_computed_fields_json::<S>(model, &mut map, include, exclude, &cf_extra)?;
                 map.end()
             } else {
                 let inner_value = self.get_inner_value(value).map_err(py_err_se_err)?;
diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index 38fd7ce..d51998a 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -8,6 +8,7 @@ use pyo3::types::{PyDict, PyList};
 use crate::definitions::DefinitionsBuilder;
 use crate::definitions::{DefinitionRef, RecursionSafeCache};
 
+use crate::serializers::DuckTypingSerMode;
 use crate::tools::SchemaDict;
 
 use super::{py_err_se_err, BuildSerializer, CombinedSerializer, Extra, TypeSerializer};
@@ -93,6 +94,10 @@ impl TypeSerializer for DefinitionRefSerializer {
     ) -> PyResult<PyObject> {
         self.definition.read(|comb_serializer| {
             let comb_serializer = comb_serializer.unwrap();
+            if extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+                // inferring the type of the value guards it already, perhaps within this definition
+                return comb_serializer.to_python(value, include, exclude, extra);
+            }
             let mut guard = extra.recursion_guard(value, self.definition.id())?;
             comb_serializer.to_python(value, include, exclude, guard.state())
         })
@@ -112,6 +117,9 @@ impl TypeSerializer for DefinitionRefSerializer {
     ) -> Result<S::Ok, S::Error> {
         self.definition.read(|comb_serializer| {
             let comb_serializer = comb_serializer.unwrap();
+            if extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+                return comb_serializer.serde_serialize(value, serializer, include, exclude, extra);
+            }
             let mut guard = extra
                 .recursion_guard(value, self.definition.id())
                 .map_err(py_err_se_err)?;
diff --git a/src/serializers/type_serializers/model.rs b/src/serializers/type_serializers/model.rs
index 4b16f5d..ee1591d 100644
--- a/src/serializers/type_serializers/model.rs
+++ b/src/serializers/type_serializers/model.rs
@@ -171,14 +171,14 @@ impl TypeSerializer for ModelSerializer {
         extra: &Extra,
     ) -> PyResult<PyObject> {
         let model = Some(value);
-        let duck_typing_ser_mode = extra.duck_typing_ser_mode.next_mode();
+        let duck_typing_ser_mode = extra.duck_typing_ser_mode.inner();
 
         let model_extra = Extra {
             model,
             duck_typing_ser_mode,
             ..*extra
         };
-        if model_extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+        if extra.duck_typing_ser_mode == DuckTypingSerMode::NeedsInference {
             return infer_to_python(value, include, exclude, &model_extra);
         }
         if self.root_model {
@@ -226,13 +226,13 @@ impl TypeSerializer for ModelSerializer {
         extra: &Extra,
     ) -> Result<S::Ok, S::Error> {
         let model = Some(value);
-        let duck_typing_ser_mode = extra.duck_typing_ser_mode.next_mode();
+        let duck_typing_ser_mode = extra.duck_typing_ser_mode.inner();
         let model_extra = Extra {
             model,
             duck_typing_ser_mode,
             ..*extra
         };
-        if model_extra.duck_typing_ser_mode == DuckTypingSerMode::Inferred {
+        if extra.duck_typing_ser_mode == DuckTypingSerMode::NeedsInference {
             return infer_serialize(value, serializer, include, exclude, &model_extra);
         }
         if self.root_model {
-- 
2.43.0


From 41127485f83bd9c0e789d644de85ce6e913e0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:36 +0000
Subject: [PATCH 71/80] fix: functions around a model (other than before
 functions) were applied twice when the model was prebuilt

---
 src/serializers/prebuilt.rs                   | 10 +++++++++-
 .../type_serializers/definitions.rs           |  6 ++++++
 src/validators/definitions.rs                 |  4 ++++
 src/validators/prebuilt.rs                    | 19 +++++++++++++++----
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/serializers/prebuilt.rs b/src/serializers/prebuilt.rs
index 3f1cf1c..4bd9a7d 100644
--- a/src/serializers/prebuilt.rs
+++ b/src/serializers/prebuilt.rs
@@ -18,7 +18,7 @@ impl PrebuiltSerializer {
     pub fn try_get_from_schema(type_: &str, schema: &Bound<'_, PyDict>) -> PyResult<Option<CombinedSerializer>> {
         get_prebuilt(type_, schema, "__pydantic_serializer__", |py_any| {
             let schema_serializer = py_any.extract::<Py<SchemaSerializer>>()?;
-            if matches!(schema_serializer.get().serializer, CombinedSerializer::FunctionWrap(_)) {
+            if is_wrap_function(&schema_serializer.get().serializer) {
                 return Ok(None);
             }
             Ok(Some(Self { schema_serializer }.into()))
@@ -26,6 +26,14 @@ impl PrebuiltSerializer {
     }
 }
 
+fn is_wrap_function(serializer: &CombinedSerializer) -> bool {
+    match serializer {
+        CombinedSerializer::FunctionWrap(_) => true,
+        CombinedSerializer::Recursive(reference) => reference.read(|s| s.is_some_and(is_wrap_function)),
+        _ => false,
+    }
+}
+
 impl_py_gc_traverse!(PrebuiltSerializer { schema_serializer });
 
 impl TypeSerializer for PrebuiltSerializer {
diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index d51998a..9709723 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -45,6 +45,12 @@ pub struct DefinitionRefSerializer {
     retry_with_lax_check: RecursionSafeCache<bool>,
 }
 
+impl DefinitionRefSerializer {
+    pub fn read<R>(&self, f: impl FnOnce(Option<&CombinedSerializer>) -> R) -> R {
+        self.definition.read(f)
+    }
+}
+
 // TODO(DH): Remove the need to clone serializers
 impl Clone for DefinitionRefSerializer {
     fn clone(&self) -> Self {
diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index 1d050a8..1ea9d0e 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -49,6 +49,10 @@ impl DefinitionRefValidator {
     pub fn new(definition: DefinitionRef<CombinedValidator>) -> Self {
         Self { definition }
     }
+
+    pub fn read<R>(&self, f: impl FnOnce(Option<&CombinedValidator>) -> R) -> R {
+        self.definition.read(f)
+    }
 }
 
 impl BuildValidator for DefinitionRefValidator {
diff --git a/src/validators/prebuilt.rs b/src/validators/prebuilt.rs
index 12eb981..459b785 100644
--- a/src/validators/prebuilt.rs
+++ b/src/validators/prebuilt.rs
@@ -17,10 +17,9 @@ impl PrebuiltValidator {
     pub fn try_get_from_schema(type_: &str, schema: &Bound<'_, PyDict>) -> PyResult<Option<CombinedValidator>> {
         get_prebuilt(type_, schema, "__pydantic_validator__", |py_any| {
             let schema_validator = py_any.extract::<Py<SchemaValidator>>()?;
-            if matches!(
-                schema_validator.get().validator,
-                CombinedValidator::FunctionWrap(_) | CombinedValidator::FunctionAfter(_)
-            ) {
+            // anything around the model (e.g. a function) is part of the schema around this one too, and
+            // would be applied twice
+            if !is_class_validator(&schema_validator.get().validator) {
                 return Ok(None);
             }
             Ok(Some(Self { schema_validator }.into()))
@@ -28,6 +27,18 @@ impl PrebuiltValidator {
     }
 }
 
+fn is_class_validator(validator: &CombinedValidator) -> bool {
+    match validator {
+        CombinedValidator::Model(_)
+        | CombinedValidator::Dataclass(_)
+        | CombinedValidator::Prebuilt(_)
+        | CombinedValidator::FunctionPlain(_)
+        | CombinedValidator::FunctionBefore(_) => true,
+        CombinedValidator::DefinitionRef(reference) => reference.read(|v| v.is_some_and(is_class_validator)),
+        _ => false,
+    }
+}
+
 impl_py_gc_traverse!(PrebuiltValidator { schema_validator });
 
 impl Validator for PrebuiltValidator {
-- 
2.43.0


From 34962937be5d4e511e0b1821d1ff05396a655327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 72/80] fix: garbage collection cleared functions in use by a
 handler or iterator, or leaked them; handlers and iterators did not keep
 definitions alive

---
 src/definitions.rs                            | 122 +++++++++++++++++-
 src/serializers/infer.rs                      |   7 +-
 src/serializers/mod.rs                        |  47 +++++--
 src/serializers/prebuilt.rs                   |  12 +-
 src/serializers/type_serializers/function.rs  |  30 +++--
 src/serializers/type_serializers/generator.rs |  28 ++--
 src/validators/function.rs                    |  25 ++--
 src/validators/generator.rs                   |  12 +-
 src/validators/mod.rs                         |  69 ++++++----
 src/validators/prebuilt.rs                    |  10 +-
 10 files changed, 272 insertions(+), 90 deletions(-)

diff --git a/src/definitions.rs b/src/definitions.rs
index 6fefb8c..4e2cad7 100644
--- a/src/definitions.rs
+++ b/src/definitions.rs
@@ -7,13 +7,18 @@ use std::{
     borrow::Borrow,
     collections::hash_map::Entry,
     fmt::Debug,
+    ops::Deref,
     sync::{
         atomic::{AtomicBool, Ordering},
         Arc, OnceLock, Weak,
     },
 };
 
-use pyo3::{prelude::*, PyTraverseError, PyVisit};
+use pyo3::{
+    prelude::*,
+    types::{PyWeakrefMethods, PyWeakrefReference},
+    PyTraverseError, PyVisit,
+};
 
 use ahash::AHashMap;
 
@@ -132,12 +137,14 @@ impl<T: PyGcTraverse> PyGcTraverse for Definitions<T> {
 #[derive(Debug)]
 pub struct DefinitionsBuilder<T> {
     definitions: Definitions<T>,
+    owner: Owner,
 }
 
 impl<T: std::fmt::Debug> DefinitionsBuilder<T> {
     pub fn new() -> Self {
         Self {
             definitions: Definitions(AHashMap::new()),
+            owner: Owner::default(),
         }
     }
 
@@ -193,6 +200,119 @@ impl<T: std::fmt::Debug> DefinitionsBuilder<T> {
         }
         Ok(self.definitions)
     }
+
+    /// The Python object which will own what is built, to be set as soon as there is one
+    pub fn owner(&self) -> Owner {
+        self.owner.clone()
+    }
+}
+
+/// (A weak reference to) the Python object which owns a tree of validators or serializers and its definitions, and
+/// which shows the objects they refer to to the garbage collector.
+#[derive(Clone, Default)]
+#[cfg_attr(debug_assertions, derive(Debug))]
+pub struct Owner(Arc<OnceLock<Py<PyWeakrefReference>>>);
+
+impl Owner {
+    pub fn set(&self, owner: &Bound<'_, PyAny>) -> PyResult<()> {
+        // there is one owner only
+        let _ = self.0.set(PyWeakrefReference::new(owner)?.unbind());
+        Ok(())
+    }
+
+    fn get(&self, py: Python) -> Option<PyObject> {
+        self.0.get()?.bind(py).upgrade().map(Bound::unbind)
+    }
+}
+
+/// A validator or serializer which can be handed out to Python on its own (as a handler or iterator), and may be
+/// used even when the SchemaValidator or SchemaSerializer it is part of is gone.
+pub struct Detachable<T> {
+    value: Arc<T>,
+    owner: Owner,
+}
+
+/// What `Detachable` hands out: it keeps everything alive which the value refers to.
+pub struct Detached<T> {
+    value: Arc<T>,
+    owner: Option<PyObject>,
+}
+
+impl<T: Debug> Detachable<T> {
+    pub fn new(value: T, definitions: &DefinitionsBuilder<T>) -> Self {
+        Self {
+            value: Arc::new(value),
+            owner: definitions.owner(),
+        }
+    }
+}
+
+impl<T> Detachable<T> {
+    pub fn detach(&self, py: Python) -> Detached<T> {
+        Detached {
+            value: self.value.clone(),
+            owner: self.owner.get(py),
+        }
+    }
+}
+
+impl<T> Detached<T> {
+    /// a value which does not refer to any definitions or Python objects
+    pub fn without_owner(value: Arc<T>) -> Self {
+        Self { value, owner: None }
+    }
+}
+
+// Can always be cloned (#[derive(Clone)] would require T: Clone)
+impl<T> Clone for Detachable<T> {
+    fn clone(&self) -> Self {
+        Self {
+            value: self.value.clone(),
+            owner: self.owner.clone(),
+        }
+    }
+}
+
+impl<T> Deref for Detachable<T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        &self.value
+    }
+}
+
+impl<T> Deref for Detached<T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        &self.value
+    }
+}
+
+impl<T: Debug> Debug for Detachable<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        self.value.fmt(f)
+    }
+}
+
+impl<T: Debug> Debug for Detached<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        self.value.fmt(f)
+    }
+}
+
+impl<T: PyGcTraverse> PyGcTraverse for Detachable<T> {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.value.py_gc_traverse(visit)
+    }
+}
+
+impl<T> PyGcTraverse for Detached<T> {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        // The value belongs to the owner. If it was traversed from here too, its references would be visited twice
+        // and the garbage collector might clear objects which are in use.
+        self.owner.py_gc_traverse(visit)
+    }
 }
 
 /// Because definitions can create recursive structures, we often need to be able to populate
diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 750b9bd..333a3ae 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -10,6 +10,7 @@ use pyo3::types::{PyByteArray, PyBytes, PyDict, PyFrozenSet, PyIterator, PyList,
 use pyo3::IntoPyObjectExt;
 use serde::ser::{Error, Serialize, SerializeMap, SerializeSeq, Serializer};
 
+use crate::definitions::Detached;
 use crate::input::{EitherTimedelta, Int};
 use crate::serializers::type_serializers;
 use crate::tools::{extract_int, py_err, safe_repr};
@@ -109,7 +110,7 @@ pub(crate) fn infer_to_python_known(
             extra.duck_typing_ser_mode.inferred(),
             extra.context,
         );
-        serializer.serializer.to_python(value, include, exclude, &extra)
+        serializer.serializer().to_python(value, include, exclude, &extra)
     };
 
     let value = match extra.mode {
@@ -272,7 +273,7 @@ pub(crate) fn infer_to_python_known(
             ObType::Generator => {
                 let iter = super::type_serializers::generator::SerializationIterator::new(
                     value.downcast()?,
-                    super::type_serializers::any::AnySerializer::get(),
+                    Detached::without_owner(super::type_serializers::any::AnySerializer::get().clone()),
                     SchemaFilter::default(),
                     include,
                     exclude,
@@ -499,7 +500,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
                 extra.context,
             );
             let pydantic_serializer =
-                PydanticSerializer::new(value, &extracted_serializer.serializer, include, exclude, &extra);
+                PydanticSerializer::new(value, extracted_serializer.serializer(), include, exclude, &extra);
             pydantic_serializer.serialize(serializer)
         }
         ObType::Dataclass => {
diff --git a/src/serializers/mod.rs b/src/serializers/mod.rs
index 434b43c..39151b8 100644
--- a/src/serializers/mod.rs
+++ b/src/serializers/mod.rs
@@ -35,11 +35,26 @@ pub enum WarningsArg {
     Literal(WarningsMode),
 }
 
-#[pyclass(module = "pydantic_core._pydantic_core", frozen)]
+/// The serializers of a SchemaSerializer, shared with the handlers and iterators they hand out to Python
+#[pyclass(module = "pydantic_core._pydantic_core", frozen, weakref)]
 #[derive(Debug)]
-pub struct SchemaSerializer {
+struct SerializerTree {
     serializer: CombinedSerializer,
     definitions: Definitions<CombinedSerializer>,
+}
+
+#[pymethods]
+impl SerializerTree {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.serializer.py_gc_traverse(&visit)?;
+        self.definitions.py_gc_traverse(&visit)
+    }
+}
+
+#[pyclass(module = "pydantic_core._pydantic_core", frozen)]
+#[derive(Debug)]
+pub struct SchemaSerializer {
+    tree: Py<SerializerTree>,
     expected_json_size: AtomicUsize,
     config: SerializationConfig,
     // References to the Python schema and config objects are saved to enable
@@ -49,6 +64,10 @@ pub struct SchemaSerializer {
 }
 
 impl SchemaSerializer {
+    fn serializer(&self) -> &CombinedSerializer {
+        &self.tree.get().serializer
+    }
+
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn build_extra<'b, 'a: 'b>(
         &'b self,
@@ -92,9 +111,18 @@ impl SchemaSerializer {
     pub fn py_new(schema: Bound<'_, PyDict>, config: Option<&Bound<'_, PyDict>>) -> PyResult<Self> {
         let mut definitions_builder = DefinitionsBuilder::new();
         let serializer = CombinedSerializer::build(schema.downcast()?, config, &mut definitions_builder)?;
+        let owner = definitions_builder.owner();
+        let definitions = definitions_builder.finish()?;
+        let tree = Bound::new(
+            schema.py(),
+            SerializerTree {
+                serializer,
+                definitions,
+            },
+        )?;
+        owner.set(&tree)?;
         Ok(Self {
-            serializer,
-            definitions: definitions_builder.finish()?,
+            tree: tree.unbind(),
             expected_json_size: AtomicUsize::new(1024),
             config: SerializationConfig::from_config(config)?,
             py_schema: schema.into(),
@@ -149,7 +177,7 @@ impl SchemaSerializer {
             duck_typing_ser_mode,
             context,
         );
-        let v = self.serializer.to_python(value, include, exclude, &extra)?;
+        let v = self.serializer().to_python(value, include, exclude, &extra)?;
         warnings.final_check(py)?;
         Ok(v)
     }
@@ -199,7 +227,7 @@ impl SchemaSerializer {
         );
         let bytes = to_json_bytes(
             value,
-            &self.serializer,
+            self.serializer(),
             include,
             exclude,
             &extra,
@@ -222,7 +250,8 @@ impl SchemaSerializer {
     pub fn __repr__(&self) -> String {
         format!(
             "SchemaSerializer(serializer={:#?}, definitions={:#?})",
-            self.serializer, self.definitions
+            self.serializer(),
+            self.tree.get().definitions
         )
     }
 
@@ -231,9 +260,7 @@ impl SchemaSerializer {
         if let Some(ref py_config) = self.py_config {
             visit.call(py_config)?;
         }
-        self.serializer.py_gc_traverse(&visit)?;
-        self.definitions.py_gc_traverse(&visit)?;
-        Ok(())
+        visit.call(&self.tree)
     }
 }
 
diff --git a/src/serializers/prebuilt.rs b/src/serializers/prebuilt.rs
index 4bd9a7d..8e2d943 100644
--- a/src/serializers/prebuilt.rs
+++ b/src/serializers/prebuilt.rs
@@ -18,7 +18,7 @@ impl PrebuiltSerializer {
     pub fn try_get_from_schema(type_: &str, schema: &Bound<'_, PyDict>) -> PyResult<Option<CombinedSerializer>> {
         get_prebuilt(type_, schema, "__pydantic_serializer__", |py_any| {
             let schema_serializer = py_any.extract::<Py<SchemaSerializer>>()?;
-            if is_wrap_function(&schema_serializer.get().serializer) {
+            if is_wrap_function(schema_serializer.get().serializer()) {
                 return Ok(None);
             }
             Ok(Some(Self { schema_serializer }.into()))
@@ -46,12 +46,12 @@ impl TypeSerializer for PrebuiltSerializer {
     ) -> PyResult<PyObject> {
         self.schema_serializer
             .get()
-            .serializer
+            .serializer()
             .to_python(value, include, exclude, extra)
     }
 
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-        self.schema_serializer.get().serializer.json_key(key, extra)
+        self.schema_serializer.get().serializer().json_key(key, extra)
     }
 
     fn serde_serialize<S: serde::ser::Serializer>(
@@ -64,15 +64,15 @@ impl TypeSerializer for PrebuiltSerializer {
     ) -> Result<S::Ok, S::Error> {
         self.schema_serializer
             .get()
-            .serializer
+            .serializer()
             .serde_serialize(value, serializer, include, exclude, extra)
     }
 
     fn get_name(&self) -> &str {
-        self.schema_serializer.get().serializer.get_name()
+        self.schema_serializer.get().serializer().get_name()
     }
 
     fn retry_with_lax_check(&self) -> bool {
-        self.schema_serializer.get().serializer.retry_with_lax_check()
+        self.schema_serializer.get().serializer().retry_with_lax_check()
     }
 }
diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index b4758bb..5c91feb 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -10,7 +10,8 @@ use pyo3::PyTraverseError;
 
 use pyo3::types::PyString;
 
-use crate::definitions::DefinitionsBuilder;
+use crate::definitions::{DefinitionsBuilder, Detachable, Detached};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 use crate::tools::{function_name, py_err, py_error_type};
 use crate::{PydanticOmit, PydanticSerializationUnexpectedValue};
@@ -329,7 +330,7 @@ impl BuildSerializer for FunctionWrapSerializerBuilder {
 
 #[derive(Debug)]
 pub struct FunctionWrapSerializer {
-    serializer: Arc<CombinedSerializer>,
+    serializer: Detachable<CombinedSerializer>,
     func: PyObject,
     name: String,
     function_name: String,
@@ -371,7 +372,7 @@ impl BuildSerializer for FunctionWrapSerializer {
 
         let name = format!("wrap_function[{function_name}, {}]", serializer.get_name());
         Ok(Self {
-            serializer: Arc::new(serializer),
+            serializer: Detachable::new(serializer, definitions),
             func: function.into(),
             function_name,
             name,
@@ -394,7 +395,7 @@ impl FunctionWrapSerializer {
     ) -> PyResult<(bool, PyObject)> {
         let py = value.py();
         if self.when_used.should_use(value, extra) {
-            let serialize = SerializationCallable::new(&self.serializer, include, exclude, extra);
+            let serialize = SerializationCallable::new(self.serializer.detach(py), include, exclude, extra);
             let v = if self.is_field_serializer {
                 if let Some(model) = extra.model {
                     if self.info_arg {
@@ -419,7 +420,7 @@ impl FunctionWrapSerializer {
     }
 
     fn get_fallback_serializer(&self) -> &CombinedSerializer {
-        self.serializer.as_ref()
+        &self.serializer
     }
 
     fn retry_with_lax_check(&self) -> bool {
@@ -438,7 +439,7 @@ function_type_serializer!(FunctionWrapSerializer);
 #[pyclass(module = "pydantic_core._pydantic_core")]
 #[cfg_attr(debug_assertions, derive(Debug))]
 pub(crate) struct SerializationCallable {
-    serializer: Arc<CombinedSerializer>,
+    serializer: Detached<CombinedSerializer>,
     extra_owned: ExtraOwned,
     filter: AnyFilter,
     include: Option<PyObject>,
@@ -447,20 +448,23 @@ pub(crate) struct SerializationCallable {
 
 impl SerializationCallable {
     pub fn new(
-        serializer: &Arc<CombinedSerializer>,
+        serializer: Detached<CombinedSerializer>,
         include: Option<&Bound<'_, PyAny>>,
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> Self {
         Self {
-            serializer: serializer.clone(),
+            serializer,
             extra_owned: ExtraOwned::new(extra),
             filter: AnyFilter::new(),
             include: include.map(|v| v.clone().unbind()),
             exclude: exclude.map(|v| v.clone().unbind()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationCallable {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -477,6 +481,7 @@ impl SerializationCallable {
         if let Some(context) = &self.extra_owned.context {
             visit.call(context)?;
         }
+        self.serializer.py_gc_traverse(&visit)?;
         Ok(())
     }
 
@@ -487,10 +492,7 @@ impl SerializationCallable {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationCallable {
     #[pyo3(signature = (value, index_key=None))]
     fn __call__(
         &mut self,
@@ -604,7 +606,10 @@ impl SerializationInfo {
             })
         }
     }
+}
 
+#[pymethods]
+impl SerializationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -623,10 +628,7 @@ impl SerializationInfo {
         self.exclude = None;
         self.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationInfo {
     fn mode_is_json(&self) -> bool {
         self._mode.is_json()
     }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index c217e82..4870c3e 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -1,5 +1,4 @@
 use std::borrow::Cow;
-use std::sync::Arc;
 
 use pyo3::gc::PyVisit;
 use pyo3::intern;
@@ -10,7 +9,8 @@ use pyo3::PyTraverseError;
 
 use serde::ser::SerializeSeq;
 
-use crate::definitions::DefinitionsBuilder;
+use crate::definitions::{DefinitionsBuilder, Detachable, Detached};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::any::AnySerializer;
@@ -21,7 +21,7 @@ use super::{
 
 #[derive(Debug)]
 pub struct GeneratorSerializer {
-    item_serializer: Arc<CombinedSerializer>,
+    item_serializer: Detachable<CombinedSerializer>,
     filter: SchemaFilter<usize>,
 }
 
@@ -39,7 +39,7 @@ impl BuildSerializer for GeneratorSerializer {
             None => AnySerializer::build(schema, config, definitions)?,
         };
         Ok(Self {
-            item_serializer: Arc::new(item_serializer),
+            item_serializer: Detachable::new(item_serializer, definitions),
             filter: SchemaFilter::from_schema(schema)?,
         }
         .into())
@@ -61,7 +61,7 @@ impl TypeSerializer for GeneratorSerializer {
                 let py = value.py();
                 match extra.mode {
                     SerMode::Json => {
-                        let item_serializer = self.item_serializer.as_ref();
+                        let item_serializer = &*self.item_serializer;
 
                         let mut items = match value.len() {
                             Ok(len) => Vec::with_capacity(len),
@@ -84,7 +84,7 @@ impl TypeSerializer for GeneratorSerializer {
                     _ => {
                         let iter = SerializationIterator::new(
                             py_iter,
-                            &self.item_serializer,
+                            self.item_serializer.detach(py),
                             self.filter.clone(),
                             include,
                             exclude,
@@ -117,7 +117,7 @@ impl TypeSerializer for GeneratorSerializer {
             Ok(py_iter) => {
                 let len = value.len().ok();
                 let mut seq = serializer.serialize_seq(len)?;
-                let item_serializer = self.item_serializer.as_ref();
+                let item_serializer = &*self.item_serializer;
 
                 for (index, iter_result) in py_iter.clone().enumerate() {
                     let element = iter_result.map_err(py_err_se_err)?;
@@ -160,7 +160,7 @@ pub(crate) struct SerializationIterator {
     iterator: Py<PyIterator>,
     #[pyo3(get)]
     index: usize,
-    item_serializer: Arc<CombinedSerializer>,
+    item_serializer: Detached<CombinedSerializer>,
     extra_owned: ExtraOwned,
     filter: SchemaFilter<usize>,
     include: Option<PyObject>,
@@ -170,7 +170,7 @@ pub(crate) struct SerializationIterator {
 impl SerializationIterator {
     pub fn new(
         py_iter: &Bound<'_, PyIterator>,
-        item_serializer: &Arc<CombinedSerializer>,
+        item_serializer: Detached<CombinedSerializer>,
         filter: SchemaFilter<usize>,
         include: Option<&Bound<'_, PyAny>>,
         exclude: Option<&Bound<'_, PyAny>>,
@@ -179,14 +179,17 @@ impl SerializationIterator {
         Self {
             iterator: py_iter.clone().into(),
             index: 0,
-            item_serializer: item_serializer.clone(),
+            item_serializer,
             extra_owned: ExtraOwned::new(extra),
             filter,
             include: include.map(|v| v.clone().into()),
             exclude: exclude.map(|v| v.clone().into()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationIterator {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -203,6 +206,8 @@ impl SerializationIterator {
         if let Some(context) = &self.extra_owned.context {
             visit.call(context)?;
         }
+        visit.call(&self.iterator)?;
+        self.item_serializer.py_gc_traverse(&visit)?;
         Ok(())
     }
 
@@ -213,10 +218,7 @@ impl SerializationIterator {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationIterator {
     fn __iter__(slf: PyRef<'_, Self>) -> PyRef<'_, Self> {
         slf
     }
diff --git a/src/validators/function.rs b/src/validators/function.rs
index 17938b1..7efaebd 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -1,11 +1,10 @@
-use std::sync::Arc;
-
 use pyo3::exceptions::{PyAssertionError, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyAny, PyDict, PyString};
 use pyo3::{intern, PyTraverseError, PyVisit};
 
 use crate::build_tools::py_schema_err;
+use crate::definitions::Detachable;
 use crate::errors::{
     ErrorType, PydanticCustomError, PydanticKnownError, PydanticOmit, ToErrorValue, ValError, ValResult,
     ValidationError,
@@ -292,7 +291,7 @@ impl Validator for FunctionPlainValidator {
 
 #[derive(Debug)]
 pub struct FunctionWrapValidator {
-    validator: Arc<CombinedValidator>,
+    validator: Detachable<CombinedValidator>,
     func: PyObject,
     config: PyObject,
     name: String,
@@ -316,7 +315,7 @@ impl BuildValidator for FunctionWrapValidator {
         let hide_input_in_errors: bool = config.get_as(intern!(py, "hide_input_in_errors"))?.unwrap_or(false);
         let validation_error_cause: bool = config.get_as(intern!(py, "validation_error_cause"))?.unwrap_or(false);
         Ok(Self {
-            validator: Arc::new(validator),
+            validator: Detachable::new(validator, definitions),
             func: function_info.function.clone(),
             config: match config {
                 Some(c) => c.clone().into(),
@@ -372,7 +371,7 @@ impl Validator for FunctionWrapValidator {
         let handler = ValidatorCallable {
             validator: InternalValidator::new(
                 "ValidatorCallable",
-                self.validator.clone(),
+                self.validator.detach(py),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
@@ -400,7 +399,7 @@ impl Validator for FunctionWrapValidator {
         let handler = AssignmentValidatorCallable {
             validator: InternalValidator::new(
                 "AssignmentValidatorCallable",
-                self.validator.clone(),
+                self.validator.detach(py),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
@@ -483,6 +482,11 @@ impl AssignmentValidatorCallable {
     fn __str__(&self) -> String {
         self.__repr__()
     }
+
+    fn __traverse__(&self, visit: PyVisit) -> Result<(), PyTraverseError> {
+        visit.call(&self.updated_field_value)?;
+        self.validator.py_gc_traverse(&visit)
+    }
 }
 
 macro_rules! py_err_string {
@@ -547,22 +551,25 @@ impl ValidationInfo {
             mode: extra.input_type,
         }
     }
+}
 
+#[pymethods]
+impl ValidationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         visit.call(&self.config)?;
         if let Some(context) = &self.context {
             visit.call(context)?;
         }
+        if let Some(data) = &self.data {
+            visit.call(data)?;
+        }
         Ok(())
     }
 
     fn __clear__(&mut self) {
         self.context = None;
     }
-}
 
-#[pymethods]
-impl ValidationInfo {
     fn __repr__(&self, py: Python) -> PyResult<String> {
         let context = match self.context {
             Some(ref context) => safe_repr(context.bind(py)).to_string(),
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index f03c614..9bd6744 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -1,9 +1,9 @@
 use std::fmt;
-use std::sync::Arc;
 
 use pyo3::types::{PyDict, PyString};
 use pyo3::{prelude::*, IntoPyObjectExt, PyTraverseError, PyVisit};
 
+use crate::definitions::{Detachable, Detached};
 use crate::errors::{ErrorType, LocItem, PydanticOmit, PydanticUseDefault, ValError, ValResult};
 use crate::input::{BorrowInput, GenericIterator, Input};
 use crate::py_gc::PyGcTraverse;
@@ -18,7 +18,7 @@ use super::{
 
 #[derive(Debug, Clone)]
 pub struct GeneratorValidator {
-    item_validator: Option<Arc<CombinedValidator>>,
+    item_validator: Option<Detachable<CombinedValidator>>,
     min_length: Option<usize>,
     max_length: Option<usize>,
     name: String,
@@ -34,7 +34,7 @@ impl BuildValidator for GeneratorValidator {
         config: Option<&Bound<'_, PyDict>>,
         definitions: &mut DefinitionsBuilder<CombinedValidator>,
     ) -> PyResult<CombinedValidator> {
-        let item_validator = get_items_schema(schema, config, definitions)?.map(Arc::new);
+        let item_validator = get_items_schema(schema, config, definitions)?.map(|v| Detachable::new(v, definitions));
         let name = match item_validator {
             Some(ref v) => format!("{}[{}]", Self::EXPECTED_TYPE, v.get_name()),
             None => format!("{}[any]", Self::EXPECTED_TYPE),
@@ -73,7 +73,7 @@ impl Validator for GeneratorValidator {
         let validator = self.item_validator.as_ref().map(|v| {
             InternalValidator::new(
                 "ValidatorIterator",
-                v.clone(),
+                v.detach(py),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
@@ -216,7 +216,7 @@ impl ValidatorIterator {
 /// mid-validation
 pub struct InternalValidator {
     name: String,
-    validator: Arc<CombinedValidator>,
+    validator: Detached<CombinedValidator>,
     // TODO, do we need data?
     data: Option<Py<PyDict>>,
     strict: Option<bool>,
@@ -244,7 +244,7 @@ impl fmt::Debug for InternalValidator {
 impl InternalValidator {
     pub fn new(
         name: &str,
-        validator: Arc<CombinedValidator>,
+        validator: Detached<CombinedValidator>,
         state: &ValidationState,
         hide_input_in_errors: bool,
         validation_error_cause: bool,
diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index cd166b6..80c4501 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -104,11 +104,38 @@ impl PySome {
     }
 }
 
-#[pyclass(module = "pydantic_core._pydantic_core", frozen)]
+/// The validators of a SchemaValidator, shared with the handlers and iterators they hand out to Python
+#[pyclass(module = "pydantic_core._pydantic_core", frozen, weakref)]
 #[derive(Debug)]
-pub struct SchemaValidator {
+struct ValidatorTree {
     validator: CombinedValidator,
     definitions: Definitions<CombinedValidator>,
+}
+
+#[pymethods]
+impl ValidatorTree {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.validator.py_gc_traverse(&visit)?;
+        self.definitions.py_gc_traverse(&visit)
+    }
+}
+
+impl ValidatorTree {
+    fn build(py: Python, schema: &Bound<'_, PyAny>, config: Option<&Bound<'_, PyDict>>) -> PyResult<Py<Self>> {
+        let mut definitions_builder = DefinitionsBuilder::new();
+        let validator = build_validator(schema, config, &mut definitions_builder)?;
+        let owner = definitions_builder.owner();
+        let definitions = definitions_builder.finish()?;
+        let tree = Bound::new(py, Self { validator, definitions })?;
+        owner.set(&tree)?;
+        Ok(tree.unbind())
+    }
+}
+
+#[pyclass(module = "pydantic_core._pydantic_core", frozen)]
+#[derive(Debug)]
+pub struct SchemaValidator {
+    tree: Py<ValidatorTree>,
     // References to the Python schema and config objects are saved to enable
     // reconstructing the object for cloudpickle support (see `__reduce__`).
     py_schema: Py<PyAny>,
@@ -125,10 +152,7 @@ impl SchemaValidator {
     #[new]
     #[pyo3(signature = (schema, config=None))]
     pub fn py_new(py: Python, schema: &Bound<'_, PyAny>, config: Option<&Bound<'_, PyDict>>) -> PyResult<Self> {
-        let mut definitions_builder = DefinitionsBuilder::new();
-
-        let validator = build_validator(schema, config, &mut definitions_builder)?;
-        let definitions = definitions_builder.finish()?;
+        let tree = ValidatorTree::build(py, schema, config)?;
         let py_schema = schema.clone().unbind();
         let py_config = match config {
             Some(c) if !c.is_empty() => Some(c.clone().into()),
@@ -140,7 +164,7 @@ impl SchemaValidator {
         };
         let title = match config_title {
             Some(t) => t.unbind(),
-            None => validator.get_name().into_py_any(py)?,
+            None => tree.get().validator.get_name().into_py_any(py)?,
         };
         let hide_input_in_errors: bool = config.get_as(intern!(py, "hide_input_in_errors"))?.unwrap_or(false);
         let validation_error_cause: bool = config.get_as(intern!(py, "validation_error_cause"))?.unwrap_or(false);
@@ -148,8 +172,7 @@ impl SchemaValidator {
             .get_as(intern!(py, "cache_strings"))?
             .unwrap_or(StringCacheMode::All);
         Ok(Self {
-            validator,
-            definitions,
+            tree,
             py_schema,
             py_config,
             title,
@@ -321,7 +344,7 @@ impl SchemaValidator {
 
         let guard = &mut RecursionState::default();
         let mut state = ValidationState::new(extra, guard, false.into());
-        self.validator
+        self.validator()
             .validate_assignment(py, &obj, field_name, &field_value, &mut state)
             .map_err(|e| self.prepare_validation_err(py, e, InputType::Python))
     }
@@ -347,7 +370,7 @@ impl SchemaValidator {
         };
         let recursion_guard = &mut RecursionState::default();
         let mut state = ValidationState::new(extra, recursion_guard, false.into());
-        let r = self.validator.default_value(py, None::<i64>, &mut state);
+        let r = self.validator().default_value(py, None::<i64>, &mut state);
         match r {
             Ok(maybe_default) => match maybe_default {
                 Some(v) => PySome::new(v).into_py_any(py),
@@ -361,8 +384,8 @@ impl SchemaValidator {
         format!(
             "SchemaValidator(title={:?}, validator={:#?}, definitions={:#?}, cache_strings={})",
             self.title.extract::<&str>(py).unwrap(),
-            self.validator,
-            self.definitions,
+            self.validator(),
+            self.tree.get().definitions,
             match self.cache_str {
                 StringCacheMode::All => "True",
                 StringCacheMode::Keys => "'keys'",
@@ -372,7 +395,7 @@ impl SchemaValidator {
     }
 
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
-        self.validator.py_gc_traverse(&visit)?;
+        visit.call(&self.tree)?;
         visit.call(&self.py_schema)?;
         if let Some(ref py_config) = self.py_config {
             visit.call(py_config)?;
@@ -382,6 +405,10 @@ impl SchemaValidator {
 }
 
 impl SchemaValidator {
+    fn validator(&self) -> &CombinedValidator {
+        &self.tree.get().validator
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn _validate<'py>(
         &self,
@@ -411,7 +438,7 @@ impl SchemaValidator {
             &mut recursion_guard,
             allow_partial,
         );
-        self.validator.validate(py, input, &mut state)
+        self.validator().validate(py, input, &mut state)
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -481,7 +508,7 @@ impl<'py> SelfValidator<'py> {
             &mut recursion_guard,
             false.into(),
         );
-        match self.validator.validator.validate(py, schema, &mut state) {
+        match self.validator.validator().validate(py, schema, &mut state) {
             Ok(schema_obj) => Ok(schema_obj.into_bound(py)),
             Err(e) => Err(SchemaError::from_val_error(py, e)),
         }
@@ -493,16 +520,12 @@ impl<'py> SelfValidator<'py> {
         py.run(code, None, Some(&locals))?;
         let self_schema = locals.get_as_req(intern!(py, "self_schema"))?;
 
-        let mut definitions_builder = DefinitionsBuilder::new();
-
-        let validator = match build_validator(&self_schema, None, &mut definitions_builder) {
-            Ok(v) => v,
+        let tree = match ValidatorTree::build(py, &self_schema, None) {
+            Ok(tree) => tree,
             Err(err) => return py_schema_err!("Error building self-schema:\n  {}", err),
         };
-        let definitions = definitions_builder.finish()?;
         Ok(SchemaValidator {
-            validator,
-            definitions,
+            tree,
             py_schema: py.None(),
             py_config: None,
             title: "Self Schema".into_py_any(py)?,
diff --git a/src/validators/prebuilt.rs b/src/validators/prebuilt.rs
index 459b785..3e8b43f 100644
--- a/src/validators/prebuilt.rs
+++ b/src/validators/prebuilt.rs
@@ -19,7 +19,7 @@ impl PrebuiltValidator {
             let schema_validator = py_any.extract::<Py<SchemaValidator>>()?;
             // anything around the model (e.g. a function) is part of the schema around this one too, and
             // would be applied twice
-            if !is_class_validator(&schema_validator.get().validator) {
+            if !is_class_validator(schema_validator.get().validator()) {
                 return Ok(None);
             }
             Ok(Some(Self { schema_validator }.into()))
@@ -48,7 +48,7 @@ impl Validator for PrebuiltValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        self.schema_validator.get().validator.validate(py, input, state)
+        self.schema_validator.get().validator().validate(py, input, state)
     }
 
     fn default_value<'py>(
@@ -59,7 +59,7 @@ impl Validator for PrebuiltValidator {
     ) -> ValResult<Option<PyObject>> {
         self.schema_validator
             .get()
-            .validator
+            .validator()
             .default_value(py, outer_loc, state)
     }
 
@@ -73,11 +73,11 @@ impl Validator for PrebuiltValidator {
     ) -> ValResult<PyObject> {
         self.schema_validator
             .get()
-            .validator
+            .validator()
             .validate_assignment(py, obj, field_name, field_value, state)
     }
 
     fn get_name(&self) -> &str {
-        self.schema_validator.get().validator.get_name()
+        self.schema_validator.get().validator().get_name()
     }
 }
-- 
2.43.0


From b881244a64e8b34c6e5af5aaf61a3b984ed524fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 73/80] fix: objects held by some validators and errors were
 not shown to the garbage collector, cycles through them leaked

---
 src/errors/types.rs                       | 22 ++++++++++++++++++++++
 src/errors/value_exception.rs             |  4 ++++
 src/serializers/fields.rs                 |  3 ++-
 src/serializers/type_serializers/enum_.rs |  2 +-
 src/validators/custom_error.rs            | 16 +++++++++++++++-
 src/validators/dataclass.rs               |  5 ++++-
 src/validators/enum_.rs                   |  8 ++++----
 src/validators/literal.rs                 |  4 ++++
 src/validators/model_fields.rs            |  3 ++-
 src/validators/union.rs                   |  8 ++++++--
 10 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index de0c228..4ab5f14 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -6,6 +6,7 @@ use pyo3::exceptions::{PyKeyError, PyTypeError};
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyInt, PyList};
+use pyo3::{PyTraverseError, PyVisit};
 
 use ahash::AHashMap;
 use num_bigint::BigInt;
@@ -13,6 +14,7 @@ use strum::{Display, EnumMessage, IntoEnumIterator};
 use strum_macros::EnumIter;
 
 use crate::input::{InputType, Int};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::{extract_i64, py_err, py_error_type};
 use crate::validators::decimal::get_decimal_type;
 
@@ -119,6 +121,14 @@ macro_rules! error_types {
                 }
             }
 
+            fn py_context(&self) -> Option<&Py<PyDict>> {
+                match self {
+                    $(
+                        Self::$item { context, .. } => context.as_ref(),
+                    )+
+                }
+            }
+
             fn py_dict_update_ctx(&self, py: Python, dict: &Bound<'_, PyDict>) -> PyResult<bool> {
                 use pyo3::types::PyMapping;
                 match self {
@@ -809,6 +819,18 @@ pub enum Number {
     String(String),
 }
 
+impl PyGcTraverse for ErrorType {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        if let Self::ValueError { error, .. } | Self::AssertionError { error, .. } = self {
+            error.py_gc_traverse(visit)?;
+        }
+        match self.py_context() {
+            Some(context) => context.py_gc_traverse(visit),
+            None => Ok(()),
+        }
+    }
+}
+
 impl Default for Number {
     fn default() -> Self {
         Self::Int(0)
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index d16f354..02594e2 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -9,6 +9,10 @@ use super::line_error::ToErrorValue;
 use super::types::fill_template;
 use super::{ErrorType, ValError};
 
+impl_py_gc_traverse!(PydanticCustomError { context });
+
+impl_py_gc_traverse!(PydanticKnownError { error_type });
+
 #[pyclass(extends=PyException, module="pydantic_core._pydantic_core")]
 #[derive(Debug, Clone)]
 pub struct PydanticOmit {}
diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index fb48e3d..f33f383 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -334,7 +334,8 @@ impl GeneralFieldsSerializer {
 
 impl_py_gc_traverse!(GeneralFieldsSerializer {
     fields,
-    computed_fields
+    computed_fields,
+    extra_serializer
 });
 
 impl TypeSerializer for GeneralFieldsSerializer {
diff --git a/src/serializers/type_serializers/enum_.rs b/src/serializers/type_serializers/enum_.rs
index d2dc403..7e264a0 100644
--- a/src/serializers/type_serializers/enum_.rs
+++ b/src/serializers/type_serializers/enum_.rs
@@ -46,7 +46,7 @@ impl BuildSerializer for EnumSerializer {
     }
 }
 
-impl_py_gc_traverse!(EnumSerializer { serializer });
+impl_py_gc_traverse!(EnumSerializer { class, serializer });
 
 impl TypeSerializer for EnumSerializer {
     fn to_python(
diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index b2ed20c..b23e687 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -1,11 +1,13 @@
 use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::build_tools::py_schema_err;
 use crate::errors::ToErrorValue;
 use crate::errors::{ErrorType, PydanticCustomError, PydanticKnownError, ValError, ValResult};
 use crate::input::Input;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::validation_state::ValidationState;
@@ -57,6 +59,15 @@ impl CustomError {
     }
 }
 
+impl PyGcTraverse for CustomError {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self {
+            CustomError::KnownError(known_error) => known_error.py_gc_traverse(visit),
+            CustomError::Custom(custom_error) => custom_error.py_gc_traverse(visit),
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct CustomErrorValidator {
     validator: Box<CombinedValidator>,
@@ -87,7 +98,10 @@ impl BuildValidator for CustomErrorValidator {
     }
 }
 
-impl_py_gc_traverse!(CustomErrorValidator { validator });
+impl_py_gc_traverse!(CustomErrorValidator {
+    validator,
+    custom_error
+});
 
 impl Validator for CustomErrorValidator {
     fn validate<'py>(
diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 83f6b78..a2f507b 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -135,7 +135,10 @@ impl BuildValidator for DataclassArgsValidator {
 
 impl_py_gc_traverse!(Field { validator });
 
-impl_py_gc_traverse!(DataclassArgsValidator { fields });
+impl_py_gc_traverse!(DataclassArgsValidator {
+    fields,
+    extras_validator
+});
 
 impl Validator for DataclassArgsValidator {
     fn validate<'py>(
diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 9147eda..58635b8 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -171,7 +171,7 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 #[derive(Debug, Clone)]
 pub struct PlainEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for PlainEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -205,7 +205,7 @@ impl EnumValidateValue for PlainEnumValidator {
 #[derive(Debug, Clone)]
 pub struct IntEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for IntEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -221,7 +221,7 @@ impl EnumValidateValue for IntEnumValidator {
 #[derive(Debug, Clone)]
 pub struct StrEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for StrEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -237,7 +237,7 @@ impl EnumValidateValue for StrEnumValidator {
 #[derive(Debug, Clone)]
 pub struct FloatEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for FloatEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index a412286..2a38ee1 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -248,6 +248,10 @@ impl<T: Debug> LiteralLookup<T> {
 impl<T: PyGcTraverse + Debug> PyGcTraverse for LiteralLookup<T> {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.expected_py_dict.py_gc_traverse(visit)?;
+        for (value, _) in self.expected_py_values.iter().flatten() {
+            value.py_gc_traverse(visit)?;
+        }
+        self.expected_py_primitives.py_gc_traverse(visit)?;
         self.values.py_gc_traverse(visit)?;
         Ok(())
     }
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 6e8e260..7c0f85a 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -117,7 +117,8 @@ impl BuildValidator for ModelFieldsValidator {
 
 impl_py_gc_traverse!(ModelFieldsValidator {
     fields,
-    extras_validator
+    extras_validator,
+    extras_keys_validator
 });
 
 impl Validator for ModelFieldsValidator {
diff --git a/src/validators/union.rs b/src/validators/union.rs
index f9865d3..9f05c22 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -215,7 +215,7 @@ impl UnionValidator {
 impl PyGcTraverse for UnionValidator {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.choices.iter().try_for_each(|(v, _)| v.py_gc_traverse(visit))?;
-        Ok(())
+        self.custom_error.py_gc_traverse(visit)
     }
 }
 
@@ -353,7 +353,11 @@ impl BuildValidator for TaggedUnionValidator {
     }
 }
 
-impl_py_gc_traverse!(TaggedUnionValidator { discriminator, lookup });
+impl_py_gc_traverse!(TaggedUnionValidator {
+    discriminator,
+    lookup,
+    custom_error
+});
 
 impl Validator for TaggedUnionValidator {
     fn validate<'py>(
-- 
2.43.0


From 359e25c794318bcb083b5226dc00ce3b122022dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 74/80] fix: errors, ArgsKwargs, Some and collected warnings
 hid the objects they hold from the garbage collector, cycles through them
 leaked

---
 src/argument_markers.rs                       |  8 +++++++-
 src/errors/validation_exception.rs            | 12 ++++++++++++
 src/errors/value_exception.rs                 | 10 ++++++++++
 src/serializers/errors.rs                     |  8 ++++++++
 src/serializers/extra.rs                      | 19 ++++++++++++++++++-
 src/serializers/type_serializers/function.rs  | 10 +---------
 src/serializers/type_serializers/generator.rs | 10 +---------
 src/validators/mod.rs                         |  4 ++++
 8 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/src/argument_markers.rs b/src/argument_markers.rs
index f22a32c..102f9c6 100644
--- a/src/argument_markers.rs
+++ b/src/argument_markers.rs
@@ -2,10 +2,11 @@ use pyo3::exceptions::PyNotImplementedError;
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyTuple};
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::tools::safe_repr;
 
-#[pyclass(module = "pydantic_core._pydantic_core", get_all, frozen, freelist = 100)]
+#[pyclass(module = "pydantic_core._pydantic_core", get_all, frozen)]
 #[derive(Debug, Clone)]
 pub struct ArgsKwargs {
     pub(crate) args: Py<PyTuple>,
@@ -42,6 +43,11 @@ impl ArgsKwargs {
             None => format!("ArgsKwargs({args})"),
         }
     }
+
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.args)?;
+        visit.call(&self.kwargs)
+    }
 }
 
 static UNDEFINED_CELL: GILOnceCell<Py<PydanticUndefinedType>> = GILOnceCell::new();
diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index a68cd11..3bd4070 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -9,6 +9,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyList, PyString, PyTuple, PyType};
+use pyo3::{PyTraverseError, PyVisit};
 use serde::ser::{Error, SerializeMap, SerializeSeq};
 use serde::{Serialize, Serializer};
 
@@ -18,6 +19,7 @@ use crate::build_tools::py_schema_error_type;
 use crate::errors::LocItem;
 use crate::get_pydantic_version;
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::serializers::{DuckTypingSerMode, Extra, SerMode, SerializationState};
 use crate::tools::{safe_repr, write_truncated_to_limited_bytes, SchemaDict};
 
@@ -253,8 +255,18 @@ impl ValidationError {
     }
 }
 
+impl_py_gc_traverse!(PyLineError {
+    error_type,
+    input_value
+});
+
 #[pymethods]
 impl ValidationError {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.line_errors.py_gc_traverse(&visit)?;
+        visit.call(&self.title)
+    }
+
     #[new]
     #[pyo3(signature = (title, line_errors, input_type="python", hide_input=false))]
     fn py_new(title: PyObject, line_errors: Vec<PyLineError>, input_type: &str, hide_input: bool) -> PyResult<Self> {
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index 02594e2..8768751 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -1,8 +1,10 @@
 use pyo3::exceptions::{PyException, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyString};
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::extract_i64;
 
 use super::line_error::ToErrorValue;
@@ -75,6 +77,10 @@ pub struct PydanticCustomError {
 
 #[pymethods]
 impl PydanticCustomError {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+
     #[new]
     #[pyo3(signature = (error_type, message_template, context = None))]
     pub fn py_new(error_type: String, message_template: String, context: Option<Bound<'_, PyDict>>) -> Self {
@@ -157,6 +163,10 @@ pub struct PydanticKnownError {
 
 #[pymethods]
 impl PydanticKnownError {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+
     #[new]
     #[pyo3(signature = (error_type, context=None))]
     pub fn py_new(py: Python, error_type: &str, context: Option<Bound<'_, PyDict>>) -> PyResult<Self> {
diff --git a/src/serializers/errors.rs b/src/serializers/errors.rs
index d9ba856..537805a 100644
--- a/src/serializers/errors.rs
+++ b/src/serializers/errors.rs
@@ -4,7 +4,9 @@ use std::fmt::Write;
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use pyo3::types::PyString;
+use pyo3::{PyTraverseError, PyVisit};
 
+use crate::py_gc::PyGcTraverse;
 use crate::tools::truncate_safe_repr;
 
 use serde::ser;
@@ -136,8 +138,14 @@ impl PydanticSerializationUnexpectedValue {
     }
 }
 
+impl_py_gc_traverse!(PydanticSerializationUnexpectedValue { input_value });
+
 #[pymethods]
 impl PydanticSerializationUnexpectedValue {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+
     #[new]
     #[pyo3(signature = (message=None, field_type=None, input_value=None))]
     fn py_new(message: Option<String>, field_type: Option<String>, input_value: Option<PyObject>) -> Self {
diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 882019a..4357960 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -6,13 +6,14 @@ use std::sync::Mutex;
 use pyo3::exceptions::{PyTypeError, PyUserWarning, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyBool, PyString};
-use pyo3::{intern, PyTypeInfo};
+use pyo3::{intern, PyTraverseError, PyTypeInfo, PyVisit};
 
 use serde::ser::Error;
 
 use super::config::SerializationConfig;
 use super::errors::{PydanticSerializationUnexpectedValue, UNEXPECTED_TYPE_SER_MARKER};
 use super::ob_type::ObTypeLookup;
+use crate::py_gc::PyGcTraverse;
 use crate::recursion_guard::ContainsRecursionState;
 use crate::recursion_guard::RecursionError;
 use crate::recursion_guard::RecursionGuard;
@@ -255,6 +256,13 @@ pub(crate) struct ExtraOwned {
     pub context: Option<PyObject>,
 }
 
+impl_py_gc_traverse!(ExtraOwned {
+    warnings,
+    model,
+    fallback,
+    context
+});
+
 impl ExtraOwned {
     pub fn new(extra: &Extra) -> Self {
         Self {
@@ -395,6 +403,15 @@ pub(crate) struct CollectWarnings {
     warnings: Mutex<Vec<PydanticSerializationUnexpectedValue>>,
 }
 
+impl PyGcTraverse for CollectWarnings {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self.warnings.try_lock() {
+            Ok(warnings) => warnings.py_gc_traverse(visit),
+            Err(_) => Ok(()),
+        }
+    }
+}
+
 impl Clone for CollectWarnings {
     fn clone(&self) -> Self {
         Self {
diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 5c91feb..e2bdf53 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -472,15 +472,7 @@ impl SerializationCallable {
         if let Some(exclude) = &self.exclude {
             visit.call(exclude)?;
         }
-        if let Some(model) = &self.extra_owned.model {
-            visit.call(model)?;
-        }
-        if let Some(fallback) = &self.extra_owned.fallback {
-            visit.call(fallback)?;
-        }
-        if let Some(context) = &self.extra_owned.context {
-            visit.call(context)?;
-        }
+        self.extra_owned.py_gc_traverse(&visit)?;
         self.serializer.py_gc_traverse(&visit)?;
         Ok(())
     }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 4870c3e..e1d6d06 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -197,15 +197,7 @@ impl SerializationIterator {
         if let Some(exclude) = &self.exclude {
             visit.call(exclude)?;
         }
-        if let Some(model) = &self.extra_owned.model {
-            visit.call(model)?;
-        }
-        if let Some(fallback) = &self.extra_owned.fallback {
-            visit.call(fallback)?;
-        }
-        if let Some(context) = &self.extra_owned.context {
-            visit.call(context)?;
-        }
+        self.extra_owned.py_gc_traverse(&visit)?;
         visit.call(&self.iterator)?;
         self.item_serializer.py_gc_traverse(&visit)?;
         Ok(())
diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index 80c4501..96fb0e5 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -102,6 +102,10 @@ impl PySome {
     fn __match_args__(py: Python<'_>) -> PyResult<Bound<'_, PyTuple>> {
         (intern!(py, "value"),).into_pyobject(py)
     }
+
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.value)
+    }
 }
 
 /// The validators of a SchemaValidator, shared with the handlers and iterators they hand out to Python
-- 
2.43.0


From 3e75f6046e62f334e03bcb29dd01b639c8a915ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 75/80] fix: custom_error_schema replaced internal errors, omit
 and use-default signals raised inside it with the custom error

---
 src/validators/custom_error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index b23e687..3c70a46 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -112,7 +112,11 @@ impl Validator for CustomErrorValidator {
     ) -> ValResult<PyObject> {
         self.validator
             .validate(py, input, state)
-            .map_err(|_| self.custom_error.as_val_error(input))
+            .map_err(|err| match err {
+                ValError::LineErrors(_) => self.custom_error.as_val_error(input),
+                // internal errors, `PydanticOmit` and `PydanticUseDefault` are not validation errors
+                other => other,
+            })
     }
 
     fn get_name(&self) -> &str {
-- 
2.43.0


From 9a28f6f4fb3cb3f6ca32dddd666b4247521befce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 76/80] fix: the typed dict serializer ignored the config of
 its schema

---
 src/serializers/type_serializers/typed_dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/typed_dict.rs b/src/serializers/type_serializers/typed_dict.rs
index d93a885..007fe20 100644
--- a/src/serializers/type_serializers/typed_dict.rs
+++ b/src/serializers/type_serializers/typed_dict.rs
@@ -24,6 +24,10 @@ impl BuildSerializer for TypedDictBuilder {
     ) -> PyResult<CombinedSerializer> {
         let py = schema.py();
 
+        // the config of this TypedDict takes precedence over the parent config
+        let own_config = schema.get_as(intern!(py, "config"))?;
+        let config = own_config.as_ref().or(config);
+
         let total =
             schema_or_config(schema, config, intern!(py, "total"), intern!(py, "typed_dict_total"))?.unwrap_or(true);
 
-- 
2.43.0


From e63fcec27721e3d892c37fbaf01f760ea4d4f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:53 +0000
Subject: [PATCH 77/80] fix: generator schemas without an item schema ignored
 max_length

---
 src/validators/generator.rs | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 9bd6744..a34b030 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -124,36 +124,36 @@ impl ValidatorIterator {
         macro_rules! next {
             ($iter:ident) => {
                 match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
-                                    let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
-                                            field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
-                                            context: None,
-                                        },
-                                        $iter.input_as_error_value(py),
-                                    );
-                                    return Err(ValidationError::from_val_error(
-                                        py,
-                                        "ValidatorIterator".into_pyobject(py)?.into(),
-                                        InputType::Python,
-                                        val_error,
-                                        None,
-                                        hide_input_in_errors,
-                                        validation_error_cause,
-                                    ));
-                                }
+                    Some((next, index)) => {
+                        if let Some(max_length) = max_length {
+                            if index >= max_length {
+                                let val_error = ValError::new_custom_input(
+                                    ErrorType::TooLong {
+                                        field_type: "Generator".to_string(),
+                                        max_length,
+                                        actual_length: None,
+                                        context: None,
+                                    },
+                                    $iter.input_as_error_value(py),
+                                );
+                                return Err(ValidationError::from_val_error(
+                                    py,
+                                    "ValidatorIterator".into_pyobject(py)?.into(),
+                                    InputType::Python,
+                                    val_error,
+                                    None,
+                                    hide_input_in_errors,
+                                    validation_error_cause,
+                                ));
                             }
-                            validator
+                        }
+                        match validator {
+                            Some(validator) => validator
                                 .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                                .map(Some),
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
+                    }
                     None => {
                         if let Some(min_length) = min_length {
                             if $iter.index() < min_length {
-- 
2.43.0


From 4403223f7b7d5332e7d1cd3eab5b44174816b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:01 +0000
Subject: [PATCH 78/80] fix: a compiled bytes pattern was serialized to bytes
 by to_python(mode='json')

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 333a3ae..9c604e4 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -234,7 +234,7 @@ pub(crate) fn infer_to_python_known(
                 complex_str.into_py_any(py)?
             }
             ObType::Path => value.str()?.into_py_any(py)?,
-            ObType::Pattern => value.getattr(intern!(py, "pattern"))?.unbind(),
+            ObType::Pattern => value.getattr(intern!(py, "pattern"))?.str()?.into_py_any(py)?,
             ObType::Unknown => {
                 if let Some(fallback) = extra.fallback {
                     let next_value = fallback.call1((value,))?;
-- 
2.43.0


From b14ed9841c51d28efb54d7ee239d862fecd631d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:29 +0000
Subject: [PATCH 79/80] fix: a dict key with a lone surrogate was written as
 another text by str, path, pattern and to-string keys

---
 src/serializers/infer.rs                   | 7 ++-----
 src/serializers/type_serializers/format.rs | 2 +-
 src/serializers/type_serializers/string.rs | 2 +-
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 9c604e4..13583f0 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -673,17 +673,14 @@ pub(crate) fn infer_json_key_known<'a>(
         }
         ObType::Path => {
             // FIXME it would be nice to have a "PyCow" which carries ownership of the Python type too
-            Ok(Cow::Owned(key.str()?.to_string_lossy().into_owned()))
+            Ok(Cow::Owned(key.str()?.to_str()?.to_owned()))
         }
         ObType::Complex => {
             let v = key.downcast::<PyComplex>()?;
             Ok(type_serializers::complex::complex_to_str(v).into())
         }
         ObType::Pattern => Ok(Cow::Owned(
-            key.getattr(intern!(key.py(), "pattern"))?
-                .str()?
-                .to_string_lossy()
-                .into_owned(),
+            key.getattr(intern!(key.py(), "pattern"))?.str()?.to_str()?.to_owned(),
         )),
         ObType::Unknown => {
             if let Some(fallback) = extra.fallback {
diff --git a/src/serializers/type_serializers/format.rs b/src/serializers/type_serializers/format.rs
index cd90bdd..5598f4f 100644
--- a/src/serializers/type_serializers/format.rs
+++ b/src/serializers/type_serializers/format.rs
@@ -199,7 +199,7 @@ impl TypeSerializer for ToStringSerializer {
 
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, _extra: &Extra) -> PyResult<Cow<'a, str>> {
         if self.when_used.should_use_json(key) {
-            Ok(Cow::Owned(key.str()?.to_string_lossy().into_owned()))
+            Ok(Cow::Owned(key.str()?.to_str()?.to_owned()))
         } else {
             none_json_key()
         }
diff --git a/src/serializers/type_serializers/string.rs b/src/serializers/type_serializers/string.rs
index bdf64e1..69c0f42 100644
--- a/src/serializers/type_serializers/string.rs
+++ b/src/serializers/type_serializers/string.rs
@@ -58,7 +58,7 @@ impl TypeSerializer for StrSerializer {
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
         if let Ok(py_str) = key.downcast::<PyString>() {
             // FIXME py cow to avoid the copy
-            Ok(Cow::Owned(py_str.to_string_lossy().into_owned()))
+            Ok(Cow::Owned(py_str.to_str()?.to_owned()))
         } else {
             extra.warnings.on_fallback_py(self.get_name(), key, extra)?;
             infer_json_key(key, extra)
-- 
2.43.0


From 9e73892ffbaaa1bc3ab63fd701e85230f329aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:18 +0000
Subject: [PATCH 80/80] fix: ValidationErrors made by from_exception_data could
 not be garbage collected when part of a cycle

---
 src/errors/validation_exception.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 3bd4070..f7c2ee9 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -441,6 +441,14 @@ pub struct PyLineError {
     input_value: PyObject,
 }
 
+#[pymethods]
+impl PyLineError {
+    // the `args` of a `ValidationError` made by `from_exception_data` refer to its line errors
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+}
+
 impl From<PyLineError> for ValLineError {
     /// Used to extract line errors from a validation error for wrap functions
     fn from(other: PyLineError) -> ValLineError {
-- 
2.43.0

