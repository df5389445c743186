From 61e80702b1b8f7de569f02204d767f556a0d67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 01/98] fix: resolution: do not let a clause eliminate its own
 terms, and re-open reintroduced pivots

The greedy algorithm kept a pivot marked as eliminated when a later premise introduced it again,
and let a premise eliminate a term of its own, so it accepted e.g. deriving the empty clause from
(cl p) and (cl p (not p)).
---
 carcara/src/resolution.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/carcara/src/resolution.rs b/carcara/src/resolution.rs
index e8dc80c..4dde11c 100644
--- a/carcara/src/resolution.rs
+++ b/carcara/src/resolution.rs
@@ -115,6 +115,11 @@ pub fn greedy_resolution(
         //     (step t2 (cl (= false true) false true) :rule equiv_neg2)
         //     (step t3 (cl (= false true)) :rule resolution :premises (t1 t2))
         let mut eliminated_clause_pivot = false;
+
+        // The terms in this clause that are not in the conclusion, and so must be removed. They can
+        // only be removed by a later clause, so they are only added to the pivots set after the
+        // whole clause was processed. Otherwise, a clause would be able to eliminate its own terms
+        let mut clause_pivots = Vec::new();
         for term in premise {
             let (n, inner) = term.remove_all_negations();
             let n = n as i32;
@@ -166,12 +171,16 @@ pub fn greedy_resolution(
             } else if conclusion.contains(&(n, inner)) {
                 working_clause.insert((n, inner));
             } else {
-                // If the term is not in the conclusion clause, it must be a pivot. If it was
-                // not already in the pivots set, we insert `false`, to indicate that it was
-                // not yet eliminated
-                pivots.entry((n, inner)).or_insert(false);
+                // If the term is not in the conclusion clause, it must be a pivot
+                clause_pivots.push((n, inner));
             }
         }
+
+        // We insert `false` to indicate that these pivots were not yet eliminated. This includes
+        // pivots that were eliminated previously, since this clause introduces them again
+        for pivot in clause_pivots {
+            pivots.insert(pivot, false);
+        }
     }
 
     // There are some special cases in the resolution rules that are valid, but leave a pivot
-- 
2.43.0


From 1f4b6139298d1ccdd22d8d48ed5066d39d73f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 02/98] fix: la_generic: strengthen only integer disequalities,
 and keep strictness when adding

---
 .../src/checker/rules/linear_arithmetic.rs    | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..f27e3e3 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -203,6 +203,16 @@ impl LinearComb {
     }
 }
 
+/// Returns `true` if the left side of the disequality can only have integer values, that is, if it
+/// is a combination of integer terms with integer coefficients.
+fn is_integral(disequality: &LinearComb, pool: &mut dyn TermPool) -> bool {
+    disequality.0.iter().all(|(term, coeff)| {
+        let term = match_term!((to_real t) = term).unwrap_or(term);
+        coeff.is_integer() && *pool.sort(term).as_sort().unwrap() == Sort::Int
+    })
+}
+
+/// Applies the strengthening rules to a disequality whose left side can only have integer values.
 fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Operator {
     // Multiplications are expensive, so we avoid them if we can
     let is_integer = if *a == 0 {
@@ -260,7 +270,7 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
     }
 }
 
-pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
+pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
@@ -292,8 +302,10 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
                 op = Operator::GreaterEq;
             }
 
-            // Step 4: Apply strengthening rules
-            let op = strengthen(op, &mut disequality, &a);
+            // Step 4: Apply strengthening rules. They are only valid over the integers
+            if is_integral(&disequality, pool) {
+                op = strengthen(op, &mut disequality, &a);
+            }
 
             // Step 5: Multiply disequality by a
             let a = match op {
@@ -302,6 +314,11 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             };
             disequality.mul(&a);
 
+            // If the coefficient is zero, the disequality is discarded
+            if a == 0 {
+                op = Operator::Equals;
+            }
+
             Ok((op, disequality))
         })
         .try_fold(
@@ -309,9 +326,12 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             |(acc_op, acc), item| -> Result<_, CheckerError> {
                 let (op, diseq) = item?;
                 let new_acc = acc.add(diseq);
+                // The sum is strict if any of the disequalities is strict
                 let new_op = match (acc_op, op) {
+                    (Operator::GreaterThan, _) | (_, Operator::GreaterThan) => {
+                        Operator::GreaterThan
+                    }
                     (_, Operator::GreaterEq) => Operator::GreaterEq,
-                    (Operator::Equals, Operator::GreaterThan) => Operator::GreaterThan,
                     _ => acc_op,
                 };
                 Ok((new_op, new_acc))
-- 
2.43.0


From 3132751c7031aa0a5ee56163dd46eb23b978c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 03/98] fix: do not read (div a b) as an exact fraction, nor
 divide by zero when reading fractions

---
 carcara/src/ast/term.rs                       | 14 ++++++++++---
 .../src/checker/rules/linear_arithmetic.rs    | 20 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..1d38efe 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -888,13 +888,21 @@ impl Term {
     /// `Some` if the term is:
     ///
     /// - A real or integer constant
-    /// - An application of the `/` or `div` operators on two real or integer constants
+    /// - An application of the `/` operator on two real or integer constants, if the second one is
+    ///   not zero
+    /// - An application of the `div` operator on two integer constants, if the second one is not
+    ///   zero and the division is exact
     /// - An application of the unary `-` operator on one of the two previous cases
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(op @ (Operator::IntDiv | Operator::RealDiv), args) if args.len() == 2 => {
+                    let (numer, denom) = (args[0].as_signed_number()?, args[1].as_signed_number()?);
+                    if denom.is_zero() {
+                        return None;
+                    }
+                    let result = numer / denom;
+                    (*op == Operator::RealDiv || result.is_integer()).then_some(result)
                 }
                 _ => term.as_number(),
             }
diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index f27e3e3..c4e58ae 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -270,13 +270,31 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
     }
 }
 
+/// Interprets an argument of `la_generic` as a coefficient. Besides the terms accepted by
+/// `Term::as_fraction`, `(div a b)` is also accepted, and denotes the exact quotient of `a` and `b`.
+fn as_coefficient(arg: &Rc<Term>) -> Option<Rational> {
+    let (inner, is_neg) = match match_term!((-x) = arg) {
+        Some(x) => (x, true),
+        None => (arg, false),
+    };
+    let Some((numer, denom)) = match_term!((div n d) = inner) else {
+        return arg.as_fraction();
+    };
+    let (numer, denom) = (numer.as_signed_number()?, denom.as_signed_number()?);
+    if denom.is_zero() {
+        return None;
+    }
+    let value = numer / denom;
+    Some(if is_neg { -value } else { value })
+}
+
 pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
         .iter()
         .map(|a| {
-            a.as_fraction()
+            as_coefficient(a)
                 .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
         })
         .collect::<Result<_, _>>()?;
-- 
2.43.0


From bd4097f53b15688908798de55cd82bf13871b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 04/98] fix: poly_simp: drop monomials whose coefficient
 vanishes modulo 2^n

---
 carcara/src/checker/rules/polynomial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/checker/rules/polynomial.rs b/carcara/src/checker/rules/polynomial.rs
index 44fb8d3..ad39454 100644
--- a/carcara/src/checker/rules/polynomial.rs
+++ b/carcara/src/checker/rules/polynomial.rs
@@ -156,6 +156,8 @@ impl Polynomial {
             }
             *coeff = coeff.numer().clone().modulo(n).into();
         }
+        // Monomials whose coefficient vanishes must not be kept
+        self.0.retain(|_, coeff| !coeff.is_zero());
         if self.1.is_integer() {
             self.1 = self.1.numer().clone().modulo(n).into();
             Some(self)
-- 
2.43.0


From ab293a8831dd090ebeddffe4ce5b018de59843af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 05/98] fix: aci_simp: remove duplicates only for idempotent
 operators, reduce an empty application to the identity

---
 carcara/src/checker/rules/simplification.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..6779180 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -757,6 +757,14 @@ fn is_assoc(op: Operator) -> bool {
     )
 }
 
+// Of the operators considered in aci_simp, the ones for which repeated arguments can be removed
+fn is_idempotent(op: Operator) -> bool {
+    matches!(
+        op,
+        Operator::And | Operator::Or | Operator::BvAnd | Operator::BvOr
+    )
+}
+
 // Term is given as argument as well because if the operator is
 // parametric, such as a BV operator, the width of the arguments will
 // be relevant.
@@ -859,7 +867,7 @@ fn apply_aci_simp(
         return t.clone();
     }
     let result = match term.as_ref() {
-        // flatten and remove duplicate on the result
+        // flatten and, if the operator is idempotent, remove duplicates on the result
         Term::Op(opp, args) if *opp == op => {
             let args: Vec<_> = args
                 .iter()
@@ -870,10 +878,16 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
                 .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
                 .collect();
-            if args.len() == 1 {
+            let args: Vec<_> = if is_idempotent(op) {
+                args.into_iter().dedup().collect()
+            } else {
+                args
+            };
+            if let ([], Some(identity)) = (args.as_slice(), identity) {
+                pool.add(identity.clone())
+            } else if args.len() == 1 {
                 args[0].clone()
             } else {
                 pool.add(Term::Op(op, args))
-- 
2.43.0


From c41da529bd1ce8ae5b69c370274ca8d5a83d0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 06/98] fix: la_mult: reject instead of panicking on a premise
 that is not a comparison

---
 carcara/src/checker/rules/extras.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3fa759e..e15f153 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -177,7 +177,7 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
             Operator::GreaterThan => match_term_err!((> a b) = term),
             Operator::LessEq => match_term_err!((<= a b) = term),
             Operator::GreaterEq => match_term_err!((>= a b) = term),
-            _ => unreachable!(),
+            _ => Err(CheckerError::TermOfWrongForm("(<comparison> t u)", term.clone())),
         }
     }
 
@@ -207,7 +207,12 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
             Operator::GreaterThan => Operator::LessThan,
             Operator::LessEq => Operator::GreaterEq,
             Operator::GreaterEq => Operator::LessEq,
-            _ => unreachable!(),
+            _ => {
+                return Err(CheckerError::TermOfWrongForm(
+                    "(<comparison> t u)",
+                    original.clone(),
+                ))
+            }
         }
     };
 
-- 
2.43.0


From 1765f8e3069d8daf9f444725b66aff4c1e409d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 07/98] fix: evaluate: integer division and remainder are
 Euclidean, and unspecified by zero

---
 carcara/src/ast/evaluate.rs | 39 +++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8dc3c25..a95d2fc 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,5 +1,8 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{Integer, Rational};
+use rug::{
+    ops::{DivRounding, RemRounding},
+    Integer, Rational,
+};
 use std::collections::{HashMap, HashSet};
 
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
@@ -84,6 +87,15 @@ impl Value {
         Some((val, w))
     }
 
+    /// Returns `true` if the value is the integer or real number zero.
+    fn is_zero(&self) -> bool {
+        match self {
+            Value::Integer(i) => i.is_zero(),
+            Value::Real(r) => r.is_zero(),
+            _ => false,
+        }
+    }
+
     /// Constructs a constant term that corresponds to this value.
     pub fn into_term(self) -> Term {
         match self {
@@ -278,9 +290,28 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         },
         Operator::Sub => arith_op!(-, args),
         Operator::Mult => arith_op!(*, args),
-        Operator::IntDiv => arith_op!(/, args),
-        Operator::RealDiv => arith_op!(/, args, "real"),
-        Operator::Mod => Value::Integer(args[0].as_int()? % args[1].as_int()?),
+        Operator::IntDiv => {
+            // In SMT-LIB, integer division is Euclidean, and division by zero is unspecified
+            let first = args[0].as_int()?;
+            let res = args[1..].iter().try_fold(first, |acc, arg| {
+                let arg = arg.as_int()?;
+                (!arg.is_zero()).then(|| acc.div_euc(arg))
+            })?;
+            Value::Integer(res)
+        }
+        Operator::RealDiv => {
+            if args[1..].iter().any(Value::is_zero) {
+                return None;
+            }
+            arith_op!(/, args, "real")
+        }
+        Operator::Mod => {
+            let (a, b) = (args[0].as_int()?, args[1].as_int()?);
+            if b.is_zero() {
+                return None;
+            }
+            Value::Integer(a.rem_euc(b))
+        }
         Operator::Abs => match &args[0] {
             Value::Integer(i) => Value::Integer(i.clone().abs()),
             Value::Real(r) => Value::Real(r.clone().abs()),
-- 
2.43.0


From f30d16a539462cae8b3700b172adfabac90b93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 08/98] fix: evaluate: integer division is Euclidean; do not
 divide by zero or compute huge powers; signed, shift, extract and rotate
 bit-vector operations

---
 carcara/src/ast/evaluate.rs | 69 ++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index a95d2fc..0e1b8c3 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -79,8 +79,7 @@ impl Value {
     pub fn as_signed_bitvec(&self) -> Option<(Integer, usize)> {
         let (val, w) = self.as_bitvec()?;
         let val = if val.get_bit((w - 1) as u32) {
-            let m = Integer::from(1) << w;
-            m.clone() - val
+            val.clone() - (Integer::from(1) << w)
         } else {
             val.clone()
         };
@@ -310,7 +309,7 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if b.is_zero() {
                 return None;
             }
-            Value::Integer(a.rem_euc(b))
+            Value::Integer(a % b)
         }
         Operator::Abs => match &args[0] {
             Value::Integer(i) => Value::Integer(i.clone().abs()),
@@ -322,8 +321,9 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if v < 0 {
                 return Some(Value::Integer(Integer::from(0)));
             }
-            let v = v.to_usize()?;
-            Value::Integer(Integer::from(1) << v)
+            // The value for larger exponents would not fit in memory
+            let v = v.to_u16()?;
+            Value::Integer(Integer::from(1) << u32::from(v))
         }
         Operator::Log2 => {
             let v = args[0].as_int()?;
@@ -422,44 +422,38 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         }
         Operator::BvSDiv => {
             let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_signed_bitvec()?);
-            if b.is_zero() {
-                return None;
-            }
-            Value::new_bitvec(a / b, w)
+            let value = if b.is_zero() {
+                Integer::from(if a.is_negative() { 1 } else { -1 })
+            } else {
+                // This division truncates towards zero
+                a / b
+            };
+            Value::new_bitvec(value, w)
         }
-        Operator::BvSRem | Operator::BvSMod => {
+        Operator::BvSRem => {
             let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_signed_bitvec()?);
-            if b.is_zero() {
-                return None;
-            }
-            let signum: Integer = if op == Operator::BvSRem { &a } else { &b }
-                .signum_ref()
-                .into();
-            let value = a.abs() % b.abs();
-            Value::new_bitvec(value * signum, w)
+            // The sign of the result follows the dividend
+            let value = if b.is_zero() { a } else { a % b };
+            Value::new_bitvec(value, w)
+        }
+        Operator::BvSMod => {
+            let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_signed_bitvec()?);
+            // The sign of the result follows the divisor
+            let value = if b.is_zero() { a } else { a.rem_floor(b) };
+            Value::new_bitvec(value, w)
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() << b.to_usize()?, w)
+            Value::new_bitvec(a.clone() << shift_amount(b, w), w)
         }
         Operator::BvLShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() >> b.to_usize()?, w)
+            Value::new_bitvec(a.clone() >> shift_amount(b, w), w)
         }
         Operator::BvAShr => {
-            let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            let b = b.to_usize().unwrap();
-            let mut result = a.clone() >> b;
-            if a.get_bit((w - 1) as u32) {
-                // If the leading bit is 1, we have to fill the new bits with 1s. The mask is b 1s
-                // followed by w - b 0s:
-                // |----w----|
-                // |-b-|
-                // 11111000000
-                let mask = ((Integer::from(1) << b) - 1) << (w - b);
-                result |= mask;
-            }
-            Value::new_bitvec(result, w)
+            let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_bitvec()?);
+            // Shifting a negative integer to the right fills the new bits with 1s
+            Value::new_bitvec(a >> shift_amount(b, w), w)
         }
         Operator::BvULt => bitvec_comparison_op!(<, args),
         Operator::BvULe => bitvec_comparison_op!(<=, args),
@@ -536,7 +530,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let j = op_args[1].as_int()?.to_usize().unwrap();
             let (bits, _) = args[0].as_bitvec()?;
-            let bits = bits.clone().keep_bits(i as u32) >> j;
+            let bits = bits.clone() >> j;
             Value::new_bitvec(bits, i - j + 1)
         }
         ParamOperator::ZeroExtend => {
@@ -553,7 +547,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let (value, w) = args[0].as_bitvec()?;
             // A left rotation by i bits is just a right rotation by w - i bits
-            Value::new_bitvec(rotate_right(value, w, w - i), w)
+            Value::new_bitvec(rotate_right(value, w, w - (i % w)), w)
         }
         ParamOperator::RotateRight => {
             let i = op_args[0].as_int()?.to_usize().unwrap();
@@ -597,6 +591,11 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
     })
 }
 
+/// Shifting a `w`-sized bitvector by `w` or more bits is the same as shifting it by `w` bits.
+fn shift_amount(b: &Integer, w: usize) -> usize {
+    b.to_usize().map_or(w, |b| b.min(w))
+}
+
 /// Rotates a `w`-sized bitvector `r` bits to the right
 fn rotate_right(value: &Integer, w: usize, r: usize) -> Integer {
     let r = r % w;
-- 
2.43.0


From 0ddb316d4638713748094c854c257e47012eb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 09/98] fix: parser: reject out-of-range bit-vector widths and
 malformed bvN constants instead of panicking

---
 carcara/src/parser/error.rs |  2 +-
 carcara/src/parser/mod.rs   | 51 +++++++++++++++++++++++++++++--------
 carcara/src/utils.rs        |  9 +++++++
 3 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 1fd03ac..273604a 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -94,7 +94,7 @@ pub enum ParserError {
     WrongNumberOfArgs(Range, usize),
 
     /// The argument values are not in the expected range.
-    #[error("expected argument value to be greater than {0}, got {1}")]
+    #[error("expected argument value to be {0}, got {1}")]
     WrongValueOfArgs(Range<Integer>, Integer),
 
     #[error("extract arguments do not follow restrictions. Expected: {2} > {0} and {0} >= {1} and {1} >= 0")]
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..6dccfa3 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -167,6 +167,18 @@ pub struct Parser<'a, R> {
     problem: Option<Problem>,
 }
 
+/// The largest width a bitvector can have.
+const MAX_BITVEC_WIDTH: i32 = i32::MAX;
+
+/// Checks that an integer is a valid width for a bitvector.
+fn bitvec_width(width: Integer) -> Result<usize, ParserError> {
+    let range = (1..=MAX_BITVEC_WIDTH).into();
+    match width.to_usize() {
+        Some(w) if w >= 1 && w <= MAX_BITVEC_WIDTH as usize => Ok(w),
+        _ => Err(ParserError::WrongValueOfArgs(range, width)),
+    }
+}
+
 impl<'a, R: BufRead> Parser<'a, R> {
     /// Constructs a new `Parser` from a type that implements `BufRead`.
     ///
@@ -463,6 +475,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&args, 2)?;
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
                 SortError::assert_eq(&Sort::Int, sorts[1])?;
+                if let Term::Const(Constant::Integer(width)) = args[1].as_ref() {
+                    bitvec_width(width.clone())?;
+                }
             }
             Operator::BvConcat => {
                 assert_num_args(&args, 2..)?;
@@ -1504,7 +1519,12 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let op_symbol = self.expect_symbol()?;
 
         if let Some(value) = op_symbol.strip_prefix("bv") {
-            let parsed_value = value.parse::<Integer>().unwrap();
+            let Ok(parsed_value) = value.parse::<Integer>() else {
+                return Err(Error::Parser(
+                    ParserError::InvalidIndexedOp(op_symbol),
+                    self.current_position,
+                ));
+            };
             let args = self.parse_sequence(Self::parse_term, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
@@ -1570,10 +1590,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
             ParamOperator::BvConst => {
                 assert_num_args(&op_args, 2)?;
                 assert_num_args(&args, 0)?;
-                let value = op_args[0].as_integer().unwrap();
-                let width = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 assert_indexed_op_args_value(&[op_args[0].clone()], 0..)?;
-                assert_indexed_op_args_value(&[op_args[1].clone()], 1..)?;
+                let width = bitvec_width(op_args[1].as_integer().unwrap())?;
+                // The value is taken modulo 2^width
+                let value = op_args[0].as_integer().unwrap().keep_bits(width as u32);
                 return Ok(self.pool.add(Term::Const(Constant::BitVec(value, width))));
             }
             ParamOperator::BvExtract => {
@@ -1597,7 +1617,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         return Err(ParserError::ExpectedIntegerConstant(arg.clone()));
                     }
                 }
-                assert_indexed_op_args_value(&op_args, 0..)?;
+                assert_indexed_op_args_value(&op_args, 0..=MAX_BITVEC_WIDTH)?;
                 let i = op_args[0].as_integer().unwrap().to_usize().unwrap();
                 let j = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 let Sort::BitVec(m) = sorts[0].clone() else {
@@ -1617,6 +1637,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
+                bitvec_width(op_args[0].as_integer().unwrap())?;
             }
             ParamOperator::BvBitOf
             | ParamOperator::BvIntOf
@@ -1632,10 +1653,21 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 } else {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
-                if !matches!(sorts[0], Sort::BitVec(_)) {
+                let Sort::BitVec(m) = *sorts[0] else {
                     return Err(ParserError::ExpectedBvSort(sorts[0].clone()));
-                }
+                };
                 assert_indexed_op_args_value(&op_args, 0..)?;
+
+                let i = op_args[0].as_integer().unwrap();
+                match op {
+                    ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
+                        bitvec_width(i + m)?;
+                    }
+                    ParamOperator::Repeat => {
+                        bitvec_width(i * m)?;
+                    }
+                    _ => (),
+                }
             }
             ParamOperator::RePower => {
                 assert_num_args(&op_args, 1)?;
@@ -1899,9 +1931,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::WrongNumberOfArgs(1.into(), args.len()));
                 }
                 if let Some(width) = args[0].as_integer() {
-                    Ok(self
-                        .pool
-                        .add(Term::Sort(Sort::BitVec(width.to_usize().unwrap()))))
+                    let width = bitvec_width(width)?;
+                    Ok(self.pool.add(Term::Sort(Sort::BitVec(width))))
                 } else {
                     Err(ParserError::ExpectedIntegerConstant(args[0].clone()))
                 }
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 3ad9401..14c766f 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -328,6 +328,15 @@ impl From<ops::RangeFrom<i32>> for Range<Integer> {
     }
 }
 
+impl From<ops::RangeInclusive<i32>> for Range<Integer> {
+    fn from(r: ops::RangeInclusive<i32>) -> Self {
+        Self(
+            Some(Integer::from(*r.start())),
+            Some(Integer::from(*r.end())),
+        )
+    }
+}
+
 impl From<ops::RangeFull> for Range {
     fn from(_: ops::RangeFull) -> Self {
         Self(None, None)
-- 
2.43.0


From eea2fef9726f480cc47b44cd618823a034f0e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 10/98] fix: lexer: reject a number that ends in its delimiter
 instead of panicking

---
 carcara/src/parser/lexer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..c07ac9c 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -378,6 +378,14 @@ impl<R: BufRead> Lexer<R> {
         if let Some(delimiter @ ('/' | '.')) = self.current_char {
             self.next_char()?;
             let second_part = self.read_chars_while(|c| c.is_ascii_digit())?;
+            if second_part.is_empty() {
+                // There must be at least one digit after the delimiter
+                let e = match self.current_char {
+                    Some(c) => ParserError::UnexpectedChar(c),
+                    None => ParserError::UnexpectedToken(Token::Eof),
+                };
+                return Err(Error::Parser(e, self.position));
+            }
             if let Some('/' | '.') = self.current_char {
                 // A number can have only one delimiter
                 let e = ParserError::UnexpectedChar(self.current_char.unwrap());
-- 
2.43.0


From 69e443e5153bf21d9f0be0289726085c014f74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 11/98] fix: pool: free variables of a let term include those
 of the bound values

---
 carcara/src/ast/pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..c0872b4 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,10 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                // The values are outside of the scope of the bound variables
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools));
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From 1728054e55aaa8ee261f79e4d349eb0311109aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 12/98] fix: substitution: substitute in the values of a let,
 pick fresh names that are really fresh, and tell apart variables of different
 sorts

---
 carcara/src/ast/substitution.rs | 55 ++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..8c17a8d 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -213,8 +213,9 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, binding_list, inner, true);
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -281,7 +282,9 @@ impl Substitution {
         if self.map.len() != 1 {
             return false;
         }
-        let x = self.map.iter().next().unwrap().0.as_var().unwrap();
+        let Term::Var(x, x_sort) = self.map.keys().next().unwrap().as_ref() else {
+            return false;
+        };
 
         let mut should_be_renamed = binding_list
             .iter()
@@ -290,7 +293,9 @@ impl Substitution {
         // In order for skipping to be possible, there should be only one variable in the binding
         // list that would be renamed, and that variable must be the variable in the domain of the
         // substitution
-        should_be_renamed.next().map(|(var, _)| var.as_ref()) == Some(x)
+        should_be_renamed
+            .next()
+            .is_some_and(|(var, sort)| var == x && sort == x_sort)
             && should_be_renamed.next().is_none()
     }
 
@@ -318,7 +323,8 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) =
+            self.rename_binding_list(pool, binding_list, inner, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -334,16 +340,34 @@ impl Substitution {
     /// captured by this substitution to a new, arbitrary name. Returns that substitution, and the
     /// new binding list, with the bindings renamed. If no variable needs to be renamed, this just
     /// returns a clone of the binding list and an empty substitution. The name chosen when renaming
-    /// a variable is the old name with `'` appended. If the binding list is a "value" list, like in
-    /// a `let` or `lambda` term, `is_value_list` should be true.
+    /// a variable is the old name with `'` appended, as many times as needed for the new name to not
+    /// clash with another variable in the binding list, or with a variable in `inner`. If the
+    /// binding list is a "value" list, like in a `let` term, `is_value_list` should be true. In that
+    /// case, this also applies the substitution to the values.
     fn rename_binding_list(
         &mut self,
         pool: &mut dyn TermPool,
         binding_list: &[SortedVar],
+        inner: &Rc<Term>,
         is_value_list: bool,
     ) -> (BindingList, Self) {
         let mut new_substitution = Self::empty();
         let mut new_vars = IndexSet::new();
+
+        let should_be_renamed = self.should_be_renamed.clone().unwrap();
+        let is_bound = |name: &str| binding_list.iter().any(|(var, _)| var == name);
+
+        // A new name must not be captured by (or capture) the variables in the binding list that are
+        // not renamed, or the variables that are free in the whole term
+        let mut kept_names: IndexSet<String> = IndexSet::new();
+        if binding_list
+            .iter()
+            .any(|(var, _)| should_be_renamed.contains(var))
+        {
+            let free_vars = pool.free_vars(inner);
+            let free_names = free_vars.iter().filter_map(|v| v.as_var());
+            kept_names.extend(free_names.filter(|n| !is_bound(n)).map(str::to_owned));
+        }
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -359,12 +383,10 @@ impl Substitution {
                 let mut new_var = var.clone();
 
                 // We keep adding `'`s to the variable name as long as it is necessary
-                loop {
-                    if !new_vars.contains(&new_var)
-                        && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
-                    {
-                        break;
-                    }
+                while new_vars.contains(&new_var)
+                    || should_be_renamed.contains(&new_var)
+                    || changed && kept_names.contains(&new_var)
+                {
                     new_var.push('\'');
                     changed = true;
                 }
@@ -379,12 +401,15 @@ impl Substitution {
                     // same sort
                     new_substitution.insert(pool, old, new).unwrap();
                     new_vars.insert(new_var.clone());
+                } else {
+                    kept_names.insert(new_var.clone());
                 }
 
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
+                // If the binding list is a "value" list, we need to apply the substitution to each
+                // variable's value. Note that the values are outside of the scope of the variables
+                // bound in the list
                 let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
+                    self.apply(pool, value)
                 } else {
                     value.clone()
                 };
-- 
2.43.0


From f5d8150b10bf489a0ed9ad73ddb7badae179a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 13/98] fix: alpha-equivalence: compare lengths of binding
 lists, respect shadowing when using the cache, and compare the values of a
 let outside of its scope

---
 carcara/src/ast/polyeq.rs | 61 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 72bbc24..84fa8aa 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -115,7 +115,8 @@ pub struct Polyeq {
     // determine that `a` and `b` are alpha-equivalent.  To account for that, we use a more
     // complicated caching system, based on a `HashMapStack`. We push a new scope every time we
     // enter a binder term, and pop it as we exit. This unfortunately means that equalities derived
-    // inside a binder term can't be reused outside of it, degrading performance. If we are not
+    // inside a binder term can't be reused outside of it (or vice versa), degrading performance. If
+    // we are not
     // checking for alpha-equivalence, we never push an additional scope to this `HashMapStack`,
     // meaning it functions as a simple hash map.
     cache: HashMapStack<(Rc<Term>, Rc<Term>), ()>,
@@ -190,6 +191,12 @@ impl Polyeq {
         result
     }
 
+    /// Returns `true` if we are checking for alpha-equivalence and are inside a binder term. In this
+    /// case, identical terms may be different, as the variables in them may be bound differently.
+    fn is_possibly_renamed(&self) -> bool {
+        self.de_bruijn_map.as_ref().is_some_and(|m| !m.is_empty())
+    }
+
     pub fn max_depth(&self) -> usize {
         self.max_depth
     }
@@ -201,6 +208,9 @@ impl Polyeq {
         a_inner: &Rc<Term>,
         b_inner: &Rc<Term>,
     ) -> bool {
+        if a_binds.len() != b_binds.len() {
+            return false;
+        }
         if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
             // First, we push new scopes into the De Bruijn map and the cache stack
             de_bruijn_map.push();
@@ -233,6 +243,40 @@ impl Polyeq {
         }
     }
 
+    fn compare_let(
+        &mut self,
+        a_binds: &BindingList,
+        b_binds: &BindingList,
+        a_inner: &Rc<Term>,
+        b_inner: &Rc<Term>,
+    ) -> bool {
+        if self.de_bruijn_map.is_none() {
+            return self.eq(a_binds, b_binds) && self.eq(a_inner, b_inner);
+        }
+
+        // The values are outside of the scope of the variables bound by the `let` term, so we
+        // compare all of them before introducing the variables
+        let values_are_equal = a_binds.len() == b_binds.len()
+            && a_binds
+                .iter()
+                .zip(b_binds.iter())
+                .all(|((_, a_value), (_, b_value))| self.eq(a_value, b_value));
+        if !values_are_equal {
+            return false;
+        }
+
+        let map = self.de_bruijn_map.as_mut().unwrap();
+        map.push();
+        for ((a_var, _), (b_var, _)) in a_binds.iter().zip(b_binds.iter()) {
+            map.insert(a_var.clone(), b_var.clone());
+        }
+        self.cache.push_scope();
+        let result = self.eq(a_inner, b_inner);
+        self.de_bruijn_map.as_mut().unwrap().pop();
+        self.cache.pop_scope();
+        result
+    }
+
     fn compare_op(
         &mut self,
         op_a: Operator,
@@ -474,13 +518,15 @@ impl PolyeqComparable for Rc<Term> {
         //
         // To account for that, if we are checking for alpha-equivalence and have encountered at
         // least one binder, we don't apply this optimization
-        let possibly_renamed = comp.de_bruijn_map.as_ref().is_some_and(|m| !m.is_empty());
-        if !possibly_renamed && a == b {
+        if !comp.is_possibly_renamed() && a == b {
             return true;
         }
 
-        // We first check the cache to see if these terms were already determined to be equal
-        if comp.cache.get(&(a.clone(), b.clone())).is_some() {
+        // We first check the cache to see if these terms were already determined to be equal. We
+        // can only consider the innermost scope, since the variables bound in it may shadow those
+        // that were in scope when an entry was added to one of the outer scopes
+        let cached = comp.cache.get_with_depth(&(a.clone(), b.clone()));
+        if cached.is_some_and(|(depth, _)| depth + 1 == comp.cache.height()) {
             return true;
         }
 
@@ -539,7 +585,8 @@ impl PolyeqComparable for Term {
                     && op.nary_case() == Some(NaryCase::LeftAssoc)
                     // We have to check with `==` first because we are calling into `comp.eq` with
                     // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
-                    && (args[0].as_ref() == other || comp.eq(args[0].as_ref(), other)) =>
+                    && (!comp.is_possibly_renamed() && args[0].as_ref() == other
+                        || comp.eq(args[0].as_ref(), other)) =>
             {
                 true
             }
@@ -551,7 +598,7 @@ impl PolyeqComparable for Term {
                 q_a == q_b && comp.compare_binder(binds_a, binds_b, a, b)
             }
             (Term::Let(binds_a, a), Term::Let(binds_b, b)) => {
-                comp.compare_binder(binds_a, binds_b, a, b)
+                comp.compare_let(binds_a, binds_b, a, b)
             }
             (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
                 // if a is a rational and b a division literal, check
-- 
2.43.0


From 35e7658b529b183327ed140ad8ae1bda421bda95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 14/98] fix: comparison modulo n-ary expansion: unary minus is
 not singleton subtraction; compare division and negation literals by value

---
 carcara/src/ast/polyeq.rs | 99 +++++++++++----------------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 84fa8aa..0a9e30c 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -7,8 +7,6 @@
 //! - `alpha_equiv` compares terms by alpha-equivalence, meaning it implements equality of terms
 //!   modulo renaming of bound variables.
 
-use rug::Rational;
-
 use super::{
     AnchorArg, BindingList, Constant, NaryCase, Operator, ProofCommand, ProofStep, Rc, Sort,
     Subproof, Term,
@@ -355,17 +353,15 @@ impl Polyeq {
                 return None;
             };
             let (term_op, args) = term.as_op()?;
-            if term_op == op {
+            if term_op == op && args.len() > 1 {
                 Some(args)
             } else {
                 None
             }
         }
 
-        match (left.len(), right.len()) {
-            (1, 1) => return self.eq(&left[0], &right[0]),
-            (1, _) | (_, 1) => return false,
-            _ => (),
+        if left.len() < 2 || right.len() < 2 {
+            return false;
         }
 
         let is_right = op.nary_case() == Some(NaryCase::RightAssoc);
@@ -377,8 +373,19 @@ impl Polyeq {
             return false;
         }
 
-        left_tail = flatten_if_singleton(left_tail, op).unwrap_or(left_tail);
-        right_tail = flatten_if_singleton(right_tail, op).unwrap_or(right_tail);
+        // If only one of the tails is a single term, it must be an application of the same operator
+        match (left_tail.len(), right_tail.len()) {
+            (1, 1) => return self.eq(&left_tail[0], &right_tail[0]),
+            (1, _) => match flatten_if_singleton(left_tail, op) {
+                Some(args) => left_tail = args,
+                None => return false,
+            },
+            (_, 1) => match flatten_if_singleton(right_tail, op) {
+                Some(args) => right_tail = args,
+                None => return false,
+            },
+            _ => (),
+        }
 
         self.compare_assoc(op, left_tail, right_tail)
     }
@@ -578,10 +585,12 @@ impl PolyeqComparable for Term {
                 },
             ) => op_a == op_b && op_args_a == op_args_b && comp.eq(args_a, args_b),
 
-            // Check the singleton case (op a) = a, where op is left-associative
+            // Check the singleton case (op a) = a, where op is left-associative. Note that the unary
+            // `-` is not the singleton case of subtraction, it is negation
             (Term::Op(op, args), other) | (other, Term::Op(op, args))
                 if comp.is_mod_nary
                     && args.len() == 1
+                    && *op != Operator::Sub
                     && op.nary_case() == Some(NaryCase::LeftAssoc)
                     // We have to check with `==` first because we are calling into `comp.eq` with
                     // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
@@ -600,70 +609,18 @@ impl PolyeqComparable for Term {
             (Term::Let(binds_a, a), Term::Let(binds_b, b)) => {
                 comp.compare_let(binds_a, binds_b, a, b)
             }
-            (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
-                // if a is a rational and b a division literal, check
-                // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    _ => false,
-                }
-            }
-            (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r))) => {
-                // if a is a rational and b a division literal, check
-                // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r.is_positive() && r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(r2)))
-                    | (Term::Const(Constant::Integer(r2)), Term::Op(Operator::Sub, args))
-                        if r.is_negative() && args.len() == 1 =>
-                    {
-                        if let Term::Const(Constant::Integer(r1)) = args[0].as_ref() {
-                            Rational::from((r1, r2)) == r.clone().abs()
-                        } else {
-                            false
-                        }
-                    }
-                    _ => false,
-                }
-            }
-            (Term::Const(Constant::Integer(i1)), Term::Op(Operator::Sub, args))
-            | (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(i1)))
-                if i1.is_negative() && args.len() == 1 =>
+            // Check if a constant and a division or negation literal have the same value
+            (constant @ Term::Const(Constant::Real(_)), literal @ Term::Op(op, args))
+            | (literal @ Term::Op(op, args), constant @ Term::Const(Constant::Real(_)))
+                if *op == Operator::RealDiv || (*op == Operator::Sub && args.len() == 1) =>
             {
-                if let Term::Const(Constant::Integer(i2)) = args[0].as_ref() {
-                    i1.clone().abs() == i2.clone()
-                } else if let Term::Const(Constant::Real(r2)) = args[0].as_ref() {
-                    i1.clone().abs() == r2.numer().clone()
-                } else {
-                    false
-                }
+                literal.as_fraction().is_some() && literal.as_fraction() == constant.as_fraction()
             }
-            (Term::Op(Operator::Sub, args), Term::Const(Constant::Real(r)))
-            | (Term::Const(Constant::Real(r)), Term::Op(Operator::Sub, args))
-                if r.is_negative() && args.len() == 1 =>
+            (constant @ Term::Const(Constant::Integer(_)), literal @ Term::Op(Operator::Sub, args))
+            | (literal @ Term::Op(Operator::Sub, args), constant @ Term::Const(Constant::Integer(_)))
+                if args.len() == 1 =>
             {
-                match args[0].as_ref() {
-                    Term::Op(Operator::RealDiv, sub_args) => {
-                        match (sub_args[0].as_ref(), sub_args[1].as_ref()) {
-                            (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                                if r1.is_integer() && r2.is_integer() =>
-                            {
-                                Rational::from((r1.numer(), r2.numer())) == r.clone().abs()
-                            }
-                            _ => false,
-                        }
-                    }
-                    Term::Const(Constant::Real(r1)) => r1.clone() == r.clone().abs(),
-                    _ => false,
-                }
+                literal.as_fraction().is_some() && literal.as_fraction() == constant.as_fraction()
             }
             _ => {
                 if comp.is_mod_string_concat {
-- 
2.43.0


From a31aed17592bedd0a9570ae9c6e27a696364c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 15/98] fix: comparison modulo string concatenation: compare
 operators, and do not slice constants by byte

---
 carcara/src/ast/polyeq.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 0a9e30c..89e5a07 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -283,7 +283,10 @@ impl Polyeq {
         args_b: &[Rc<Term>],
     ) -> bool {
         // Modulo string concatenation
-        if self.is_mod_string_concat {
+        if self.is_mod_string_concat
+            && op_a == Operator::StrConcat
+            && op_b == Operator::StrConcat
+        {
             let concat_args_a: Vec<Concat> = to_concat(args_a);
             let concat_args_b: Vec<Concat> = to_concat(args_b);
             return self.compare_strings(concat_args_a, concat_args_b);
@@ -395,15 +398,15 @@ impl Polyeq {
             (None | Some(_), None) | (None, Some(_)) => (a, b),
             (Some(a_head), Some(b_head)) => match (a_head, b_head) {
                 (Concat::Constant(a_constant), Concat::Constant(b_constant)) => {
-                    let prefix_length = std::cmp::min(a_constant.len(), b_constant.len());
-                    for i in 0..prefix_length {
-                        if a_constant.chars().nth(i).unwrap() != b_constant.chars().nth(i).unwrap()
-                        {
+                    // One of the constants must be a prefix of the other
+                    let (a_const_rem, b_const_rem) =
+                        if let Some(rem) = a_constant.strip_prefix(b_constant.as_str()) {
+                            (rem, "")
+                        } else if let Some(rem) = b_constant.strip_prefix(a_constant.as_str()) {
+                            ("", rem)
+                        } else {
                             return (a, b);
-                        }
-                    }
-                    let a_const_rem = &a_constant[prefix_length..];
-                    let b_const_rem = &b_constant[prefix_length..];
+                        };
                     let mut new_a = a[1..].to_vec();
                     let mut new_b = b[1..].to_vec();
                     if !a_const_rem.is_empty() {
-- 
2.43.0


From 6dca05218bf0fa9d72ef2e9e7d670ed23736fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 16/98] fix: qnt_cnf: do not capture free variables of the
 original formula when prenexing

---
 carcara/src/checker/rules/quantifier.rs | 36 ++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/quantifier.rs b/carcara/src/checker/rules/quantifier.rs
index a7a925e..033022c 100644
--- a/carcara/src/checker/rules/quantifier.rs
+++ b/carcara/src/checker/rules/quantifier.rs
@@ -256,11 +256,45 @@ fn conjunctive_normal_form(term: &Rc<Term>) -> CnfFormula {
     }
 }
 
+/// Renames, in both terms, the free variables of `l` that are also bound by the quantifier `r`. This
+/// makes sure that, when we prenex the quantifiers in `l`, none of its free variables are captured.
+fn rename_captured_vars(
+    pool: &mut dyn TermPool,
+    l: &Rc<Term>,
+    r: &Rc<Term>,
+) -> Result<(Rc<Term>, Rc<Term>), CheckerError> {
+    let free_vars = pool.free_vars(l);
+    let r_bindings = r.as_quant_err()?.1;
+    let mut taken: IndexSet<_> = pool.free_vars(r).into_iter().chain(free_vars.clone()).collect();
+    let mut renaming = IndexMap::new();
+    for (name, sort) in r_bindings {
+        let var = pool.add(Term::new_var(name, sort.clone()));
+        if !free_vars.contains(&var) {
+            continue;
+        }
+        let mut new_name = name.clone();
+        let mut new_var = var.clone();
+        while taken.contains(&new_var) || r_bindings.iter().any(|(b, _)| *b == new_name) {
+            new_name.push('\'');
+            new_var = pool.add(Term::new_var(&new_name, sort.clone()));
+        }
+        taken.insert(new_var.clone());
+        renaming.insert(var, new_var);
+    }
+    if renaming.is_empty() {
+        return Ok((l.clone(), r.clone()));
+    }
+    let mut renaming = Substitution::new(pool, renaming)?;
+    Ok((renaming.apply(pool, l), renaming.apply(pool, r)))
+}
+
 pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
 
+    let (l, r) = match_term_err!((or (not l) r) = &conclusion[0])?;
+    let (l, r) = rename_captured_vars(pool, l, r)?;
+
     let (l_bindings, phi, r_bindings, phi_prime) = {
-        let (l, r) = match_term_err!((or (not l) r) = &conclusion[0])?;
         let (l_q, l_b, phi) = l.as_quant_err()?;
         let (r_q, r_b, phi_prime) = r.as_quant_err()?;
 
-- 
2.43.0


From 3126eebb1ea0ad564592db52573e393b87230904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 17/98] fix: anchor contexts: variables bound by an inner
 anchor shadow outer substitutions, including in assigned values

---
 carcara/src/ast/context.rs      | 28 ++++++++++++++++++++++++----
 carcara/src/ast/substitution.rs | 17 +++++++++++------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..e163bdc 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -83,6 +83,21 @@ impl ContextStack {
             .map(|id| self.context_vec[*id].1.read().unwrap())
     }
 
+    /// Calls `f` on each variable that is bound by the contexts from nesting depth `from` (inclusive)
+    /// to `to` (exclusive).
+    pub(crate) fn for_each_bound_var<F>(&self, from: usize, to: usize, mut f: F)
+    where
+        F: FnMut(&SortedVar),
+    {
+        for id in self.stack.get(from..to).unwrap_or_default() {
+            let guard = self.context_vec[*id].1.read().unwrap();
+            for arg in &guard.as_ref().unwrap().args {
+                let (AnchorArg::Variable(var) | AnchorArg::Assign(var, _)) = arg;
+                f(var);
+            }
+        }
+    }
+
     pub fn last_mut(&mut self) -> Option<RwLockWriteGuard<'_, Option<Context>>> {
         self.stack
             .last_mut()
@@ -175,12 +190,17 @@ impl ContextStack {
                 Substitution::empty()
             };
 
+            // All variables bound by the anchor shadow variables with the same name from the outer
+            // contexts
+            for a in &current_context.args {
+                let (AnchorArg::Variable(var) | AnchorArg::Assign(var, _)) = a;
+                let var_term = pool.add(var.clone().into());
+                substitution.shadow(pool, &var_term);
+            }
+
             for a in &current_context.args {
                 match a {
-                    AnchorArg::Variable((name, sort)) => {
-                        let var_term = pool.add(Term::new_var(name, sort.clone()));
-                        substitution.remove(&var_term);
-                    }
+                    AnchorArg::Variable(_) => (),
                     AnchorArg::Assign(var, value) => {
                         let var_term = pool.add(var.clone().into());
                         let new_value = substitution.apply(pool, value);
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8c17a8d..10f102c 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -130,14 +130,19 @@ impl Substitution {
         Ok(())
     }
 
-    /// Removes a mapping from the substitution.
+    /// Removes all mappings from the substitution that become invalid when the variable `x` is
+    /// shadowed, that is, any mapping from `x`, and any mapping to a term where `x` is free.
     ///
-    /// This will clear `self.should_be_renamed`, such that it might need to be recomputed later.
-    /// Therefore, you should avoid using this method if possible.
-    pub(super) fn remove(&mut self, x: &Rc<Term>) {
-        let was_present = self.map.swap_remove(x).is_some();
-        if was_present {
+    /// If any mapping is removed, this will clear the cache and `self.should_be_renamed`, such that
+    /// it might need to be recomputed later. Therefore, you should avoid using this method if
+    /// possible.
+    pub(super) fn shadow(&mut self, pool: &mut dyn TermPool, x: &Rc<Term>) {
+        let old_len = self.map.len();
+        self.map
+            .retain(|k, v| k != x && (k == v || !pool.free_vars(v).contains(x)));
+        if self.map.len() != old_len {
             self.should_be_renamed = None;
+            self.cache.clear();
         }
     }
 
-- 
2.43.0


From 71681f1cb0213f3f02a3d82cac37c15474b23957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 18/98] fix: rules that close a subproof: variables assigned or
 introduced by the anchor must not escape into the conclusion

---
 carcara/src/checker/error.rs          |  15 ++
 carcara/src/checker/rules/extras.rs   |  23 ++-
 carcara/src/checker/rules/subproof.rs | 270 ++++++++++++++++++++------
 3 files changed, 249 insertions(+), 59 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..75fa541 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -396,6 +396,21 @@ pub enum SubproofError {
     #[error("right and left quantifiers have different number of bindings: {0} and {1}")]
     BindDifferentNumberOfBindings(usize, usize),
 
+    #[error("context maps bound variable '{0}' to '{1}'")]
+    BindWrongAssignment(Rc<Term>, Rc<Term>),
+
+    #[error("rule can't use anchor argument '{0}'")]
+    UnexpectedAnchorArgument(String),
+
+    #[error("variable '{0}' was introduced in a subproof, but appears outside its scope in '{1}'")]
+    VariableEscapesScope(Rc<Term>, Rc<Term>),
+
+    #[error("variable '{0}' was introduced in a subproof, but is free in outer premise '{1}'")]
+    OuterPremiseIsShadowed(Rc<Term>, String),
+
+    #[error("the rule '{0}' can't be used to close a subproof")]
+    RuleCantCloseSubproof(String),
+
     #[error("binding '{0}' was not introduced in context")]
     BindingIsNotInContext(String),
 
diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index e15f153..cad09a5 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -1,12 +1,15 @@
 //! This module contains rules that are not yet in the specification for the Alethe format.
 
 use super::{
-    assert_clause_len, assert_eq, assert_num_premises, get_premise_term, CheckerError,
-    EqualityError, RuleArgs, RuleResult,
+    assert_clause_len, assert_eq, assert_num_premises, get_premise_term, subproof::ClosedAnchor,
+    CheckerError, EqualityError, RuleArgs, RuleResult,
 };
 use crate::{
     ast::*,
-    checker::{error::CongruenceError, rules::assert_operation_len},
+    checker::{
+        error::{CongruenceError, SubproofError},
+        rules::assert_operation_len,
+    },
     utils::{MultiSet, MultiSetDifference},
 };
 
@@ -114,11 +117,16 @@ pub fn bind_let(
     RuleArgs {
         conclusion,
         premises,
+        pool,
+        context,
         previous_command,
         ..
     }: RuleArgs,
 ) -> RuleResult {
     let previous_command = previous_command.ok_or(CheckerError::MustBeLastStepInSubproof)?;
+    let anchor = ClosedAnchor::new(pool, context)?;
+    anchor.check_premises(pool, premises, &previous_command)?;
+    anchor.check_no_assignments()?;
 
     assert_clause_len(conclusion, 1)?;
 
@@ -138,7 +146,16 @@ pub fn bind_let(
         .map(|p| match_term_err!((= t u) = get_premise_term(p)?))
         .collect::<Result<Vec<_>, _>>()?
         .into_iter();
+    let phi_vars = pool.free_vars(phi);
+    let phi_prime_vars = pool.free_vars(phi_prime);
     for (left, right) in l_bindings.iter().zip(r_bindings) {
+        // The inner equality must have been proven for any value of the variable
+        let var = (left.0.clone(), pool.sort(&left.1));
+        let var = pool.add(var.into());
+        if (phi_vars.contains(&var) || phi_prime_vars.contains(&var)) && !anchor.binds(&var) {
+            return Err(SubproofError::BindingIsNotInContext(left.0.clone()).into());
+        }
+
         if left.0 != right.0 {
             return Err(
                 EqualityError::ExpectedEqual(l_bindings.clone(), r_bindings.clone()).into(),
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..9ea2b91 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -1,15 +1,116 @@
 use super::{
     assert_clause_len, assert_eq, assert_is_expected, assert_num_premises, assert_polyeq,
-    get_premise_term, CheckerError, EqualityError, RuleArgs, RuleResult,
+    get_premise_term, CheckerError, ContextStack, EqualityError, Premise, RuleArgs, RuleResult,
 };
 use crate::{ast::*, checker::error::SubproofError};
 use indexmap::{IndexMap, IndexSet};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
+
+/// The arguments of the anchor that the current step is closing.
+pub(super) struct ClosedAnchor {
+    /// All variables bound by the anchor, both by "variable declaration" and "assignment" arguments.
+    bound: IndexSet<Rc<Term>>,
+
+    /// The assignments in the anchor, excluding those that map a variable to itself.
+    assigned: IndexMap<Rc<Term>, Rc<Term>>,
+}
+
+impl ClosedAnchor {
+    pub(super) fn new(
+        pool: &mut dyn TermPool,
+        context: &ContextStack,
+    ) -> Result<Self, CheckerError> {
+        let mut bound = IndexSet::new();
+        let mut assigned = IndexMap::new();
+        if let Some(context) = context.last() {
+            for arg in &context.as_ref().unwrap().args {
+                match arg {
+                    AnchorArg::Variable(var) => {
+                        bound.insert(pool.add(var.clone().into()));
+                    }
+                    AnchorArg::Assign(var, value) => {
+                        let var = pool.add(var.clone().into());
+                        bound.insert(var.clone());
+
+                        // A variable can't stand for two different values
+                        if assigned.get(&var).is_some_and(|v| v != value) {
+                            let name = var.as_var().unwrap().to_owned();
+                            return Err(SubproofError::UnexpectedAnchorArgument(name).into());
+                        }
+                        if var != *value {
+                            assigned.insert(var, value.clone());
+                        }
+                    }
+                }
+            }
+        }
+        Ok(Self { bound, assigned })
+    }
+
+    /// Checks that none of the assigned variables appear as a free variable in `term`. Inside of
+    /// the subproof, these variables stand for their assigned values, so they can't escape its
+    /// scope.
+    fn check_not_assigned_in(&self, pool: &mut dyn TermPool, term: &Rc<Term>) -> RuleResult {
+        self.check_none_free_in(pool, self.assigned.keys(), term)
+    }
+
+    /// Checks that the values assigned to the variables don't refer to the variables themselves.
+    fn check_assigned_values(&self, pool: &mut dyn TermPool) -> RuleResult {
+        self.assigned
+            .values()
+            .try_for_each(|value| self.check_not_assigned_in(pool, value))
+    }
+
+    /// Checks that the premises that come from inside the subproof don't depend on any of the
+    /// variables that were bound by the anchor.
+    pub(super) fn check_premises(
+        &self,
+        pool: &mut dyn TermPool,
+        premises: &[Premise],
+        previous_command: &Premise,
+    ) -> RuleResult {
+        premises
+            .iter()
+            .filter(|p| p.index.0 == previous_command.index.0)
+            .flat_map(|p| p.clause)
+            .try_for_each(|term| self.check_none_free_in(pool, &self.bound, term))
+    }
+
+    /// Returns `true` if the anchor binds the given variable.
+    pub(super) fn binds(&self, var: &Rc<Term>) -> bool {
+        self.bound.contains(var)
+    }
+
+    /// Checks that the anchor only introduces variables, without assigning any values to them.
+    pub(super) fn check_no_assignments(&self) -> RuleResult {
+        match self.assigned.first() {
+            Some((x, _)) => {
+                let x = x.as_var().unwrap().to_owned();
+                Err(SubproofError::UnexpectedAnchorArgument(x).into())
+            }
+            None => Ok(()),
+        }
+    }
+
+    fn check_none_free_in<'a>(
+        &self,
+        pool: &mut dyn TermPool,
+        vars: impl IntoIterator<Item = &'a Rc<Term>>,
+        term: &Rc<Term>,
+    ) -> RuleResult {
+        let free_vars = pool.free_vars(term);
+        match vars.into_iter().find(|&x| free_vars.contains(x)) {
+            Some(x) => Err(SubproofError::VariableEscapesScope(x.clone(), term.clone()).into()),
+            None => Ok(()),
+        }
+    }
+}
 
 pub fn subproof(
     RuleArgs {
         conclusion,
         pool,
+        context,
         previous_command,
         discharge,
         polyeq_time,
@@ -18,6 +119,14 @@ pub fn subproof(
 ) -> RuleResult {
     let previous_command = previous_command.ok_or(CheckerError::MustBeLastStepInSubproof)?;
 
+    // The variables introduced by an anchor can't escape the subproof, but this rule doesn't
+    // eliminate them
+    let anchor = ClosedAnchor::new(pool, context)?;
+    if let Some(x) = anchor.bound.first() {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::UnexpectedAnchorArgument(x).into());
+    }
+
     assert_clause_len(conclusion, discharge.len() + 1)?;
 
     for (assumption, t) in discharge.iter().zip(conclusion) {
@@ -90,47 +199,50 @@ pub fn bind(
 
     // Since we are closing a subproof, we only care about the substitutions that were introduced
     // in it
+    let anchor = ClosedAnchor::new(pool, context)?;
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
 
-    let (xs, ys): (IndexSet<_>, IndexSet<_>) = {
-        let (mut xs, mut ys) = (IndexSet::new(), IndexSet::new());
-        for arg in &context.args {
-            match arg {
-                AnchorArg::Variable((name, _)) if !xs.is_empty() => {
-                    return Err(SubproofError::BindUnexpectedVarArgument(name.clone()).into());
-                }
-                AnchorArg::Variable(var) => {
-                    ys.insert(pool.add(var.clone().into()));
-                }
-                AnchorArg::Assign(var, _) => {
-                    xs.insert(pool.add(var.clone().into()));
-                }
+    let mut seen_assign = false;
+    for arg in &context.args {
+        match arg {
+            AnchorArg::Variable((name, _)) if seen_assign => {
+                return Err(SubproofError::BindUnexpectedVarArgument(name.clone()).into());
             }
+            AnchorArg::Variable(_) => (),
+            AnchorArg::Assign(..) => seen_assign = true,
         }
-        (xs, ys)
-    };
+    }
 
     rassert!(
         l_bindings.len() == r_bindings.len(),
         SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
     );
 
-    let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
-        l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
-    );
-
-    // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-    if let Some(x) = l_bindings.iter().find(|&x| !xs.contains(x)) {
-        let x = x.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindingIsNotInContext(x).into());
+    // The context must map each variable in the left-hand side to a different variable in the
+    // right-hand side. A variable that is bound in both sides must be mapped to itself, because
+    // otherwise `phi` and `phi'` would only be equal for some of its values
+    let mut image = IndexSet::new();
+    for x in &l_bindings {
+        let y = anchor.assigned.get(x).unwrap_or(x);
+        if !anchor.bound.contains(x) || x != y && r_bindings.contains(x) {
+            let x = x.as_var().unwrap().to_owned();
+            return Err(SubproofError::BindingIsNotInContext(x).into());
+        }
+        if !r_bindings.contains(y) || !image.insert(y) {
+            return Err(SubproofError::BindWrongAssignment(x.clone(), y.clone()).into());
+        }
     }
-    if let Some(y) = r_bindings.iter().find(|&y| !ys.contains(y)) {
+    if let Some(y) = r_bindings.iter().find(|&y| !anchor.bound.contains(y)) {
         let y = y.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(y).into());
     }
-    Ok(())
+    if let Some(x) = anchor.assigned.keys().find(|&x| !l_bindings.contains(x)) {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::UnexpectedAnchorArgument(x).into());
+    }
+
+    anchor.check_not_assigned_in(pool, phi_prime)
 }
 
 pub fn r#let(
@@ -148,6 +260,7 @@ pub fn r#let(
     assert_clause_len(conclusion, 1)?;
 
     // Since we are closing a subproof, we only care about the mappings that were introduced in it
+    let anchor = ClosedAnchor::new(pool, context)?;
     let context = context.last().unwrap();
     let args = &context.as_ref().unwrap().args;
     let mappings: IndexMap<Rc<Term>, Rc<Term>> = args
@@ -172,6 +285,10 @@ pub fn r#let(
     assert_eq(u, previous_u)?;
     assert_eq(u_prime, previous_u_prime)?;
 
+    anchor.check_assigned_values(pool)?;
+    anchor.check_not_assigned_in(pool, u_prime)?;
+    anchor.check_premises(pool, premises, &previous_command)?;
+
     rassert!(
         let_bindings.len() == mappings.len(),
         SubproofError::WrongNumberOfLetBindings(mappings.len(), let_bindings.len())
@@ -205,8 +322,13 @@ pub fn r#let(
     Ok(())
 }
 
-fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)> {
+fn extract_points(
+    pool: &mut dyn TermPool,
+    quant: Binder,
+    term: &Rc<Term>,
+) -> HashSet<(String, Rc<Term>)> {
     fn find_points(
+        pool: &mut dyn TermPool,
         acc: &mut HashSet<(String, Rc<Term>)>,
         seen: &mut HashSet<(Rc<Term>, bool)>,
         polarity: bool,
@@ -219,10 +341,24 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
         seen.insert(key);
 
         if let Some(inner) = term.remove_negation() {
-            return find_points(acc, seen, !polarity, inner);
+            return find_points(pool, acc, seen, !polarity, inner);
         }
-        if let Some((_, _, inner)) = term.as_quant() {
-            return find_points(acc, seen, polarity, inner);
+        if let Some((_, bindings, inner)) = term.as_quant() {
+            // Points that mention a variable that is bound by an inner quantifier only make sense
+            // in the scope of that quantifier, so we have to discard them. We also can't share the
+            // `seen` set with the terms in the inner scope
+            let mut inner_acc = HashSet::new();
+            find_points(pool, &mut inner_acc, &mut HashSet::new(), polarity, inner);
+            let bound: Vec<Rc<Term>> = bindings.iter().map(|v| pool.add(v.clone().into())).collect();
+            for (x, t) in inner_acc {
+                let var = pool.sort(&t);
+                let var = pool.add((x.clone(), var).into());
+                let free_vars = pool.free_vars(&t);
+                if !bound.iter().any(|b| *b == var || free_vars.contains(b)) {
+                    acc.insert((x, t));
+                }
+            }
+            return;
         }
         match polarity {
             true => {
@@ -235,17 +371,17 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
                     }
                 } else if let Some(args) = match_term!((and ...) = term) {
                     for a in args {
-                        find_points(acc, seen, true, a);
+                        find_points(pool, acc, seen, true, a);
                     }
                 }
             }
             false => {
                 if let Some((p, q)) = match_term!((=> p q) = term) {
-                    find_points(acc, seen, true, p);
-                    find_points(acc, seen, false, q);
+                    find_points(pool, acc, seen, true, p);
+                    find_points(pool, acc, seen, false, q);
                 } else if let Some(args) = match_term!((or ...) = term) {
                     for a in args {
-                        find_points(acc, seen, false, a);
+                        find_points(pool, acc, seen, false, a);
                     }
                 }
             }
@@ -254,7 +390,7 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
 
     let mut result = HashSet::new();
     let mut seen = HashSet::new();
-    find_points(&mut result, &mut seen, quant == Binder::Exists, term);
+    find_points(pool, &mut result, &mut seen, quant == Binder::Exists, term);
     result
 }
 
@@ -293,7 +429,7 @@ pub fn onepoint(
         }
     );
 
-    let points = extract_points(quant, left);
+    let points = extract_points(pool, quant, left);
 
     // Since a substitution may use a variable introduced in a previous substitution, we apply the
     // substitution to the points in order to replace these variables by their value.
@@ -302,6 +438,10 @@ pub fn onepoint(
         .map(|(x, t)| (x, context.apply(pool, &t)))
         .collect();
 
+    let anchor = ClosedAnchor::new(pool, context)?;
+    anchor.check_assigned_values(pool)?;
+    anchor.check_not_assigned_in(pool, right)?;
+
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
     let mut mappings = context.args.iter().filter_map(AnchorArg::as_assign);
@@ -338,6 +478,14 @@ pub fn onepoint(
         .collect();
     let point_vars: HashSet<_> = point_vars.iter().collect();
 
+    // A variable that is mapped to itself can't be eliminated
+    if let Some(var) = point_vars.iter().find(|&&var| {
+        let term = pool.add(var.clone().into());
+        !var_args.contains(var) && !anchor.assigned.contains_key(&term)
+    }) {
+        return Err(SubproofError::UnexpectedAnchorArgument(var.0.clone()).into());
+    }
+
     if var_args != r_bindings.as_ref() {
         return Err(SubproofError::OnepointWrongRightBindings(BindingList(var_args)).into());
     }
@@ -381,25 +529,22 @@ fn generic_skolemization_rule(
     assert_eq(previous_equality.0, phi)?;
     assert_eq(previous_equality.1, psi)?;
 
-    let mut current_phi = phi.clone();
+    // We must apply the substitution from the outer contexts to the whole quantifier term, and not
+    // just to `phi`, because the quantifier's bindings may shadow variables in these contexts, or
+    // capture variables that appear in them. For the same reason, the bindings may be renamed.
+    let mut left = left.clone();
     if context.len() >= 2 {
-        current_phi = context.apply_previous(pool, &current_phi);
+        left = context.apply_previous(pool, &left);
     }
+    let (_, renamed_bindings, phi) = left.as_quant_err()?;
+    let mut current_phi = phi.clone();
 
-    let context = context.last().unwrap();
-    let args = context.as_ref().unwrap().args.iter();
-
-    let substitution: HashMap<Rc<Term>, Rc<Term>> = args
-        .filter_map(AnchorArg::as_assign)
-        .map(|(k, v)| {
-            let var = Term::new_var(k, pool.sort(v));
-            (pool.add(var), v.clone())
-        })
-        .collect();
+    let anchor = ClosedAnchor::new(pool, context)?;
 
-    for (i, x) in bindings.iter().enumerate() {
+    for (i, (x, renamed)) in bindings.iter().zip(renamed_bindings).enumerate() {
         let x_term = pool.add(Term::from(x.clone()));
-        let t = substitution
+        let t = anchor
+            .assigned
             .get(&x_term)
             .ok_or_else(|| SubproofError::BindingIsNotInContext(x.0.clone()))?;
 
@@ -413,7 +558,7 @@ fn generic_skolemization_rule(
             if i < bindings.len() - 1 {
                 inner = pool.add(Term::Binder(
                     rule_type,
-                    BindingList(bindings.0[i + 1..].to_vec()),
+                    BindingList(renamed_bindings.0[i + 1..].to_vec()),
                     inner,
                 ));
             }
@@ -422,7 +567,7 @@ fn generic_skolemization_rule(
             if rule_type == Binder::Forall {
                 inner = build_term!(pool, (not { inner }));
             }
-            let binding_list = BindingList(vec![x.clone()]);
+            let binding_list = BindingList(vec![renamed.clone()]);
             pool.add(Term::Binder(Binder::Choice, binding_list, inner))
         };
         if !alpha_equiv(t, &expected, polyeq_time) {
@@ -430,10 +575,23 @@ fn generic_skolemization_rule(
         }
 
         // For every binding we skolemize, we must apply another substitution to phi
-        let mut s = Substitution::single(pool, x_term, t.clone())?;
+        let renamed_term = pool.add(Term::from(renamed.clone()));
+        let mut s = Substitution::single(pool, renamed_term, t.clone())?;
         current_phi = s.apply(pool, &current_phi);
     }
-    Ok(())
+
+    // All of the variables that are assigned by the anchor must have been skolemized, and they
+    // can't appear in the result
+    let bindings: IndexSet<_> = bindings
+        .iter()
+        .map(|x| pool.add(Term::from(x.clone())))
+        .collect();
+    if let Some(x) = anchor.assigned.keys().find(|&x| !bindings.contains(x)) {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::UnexpectedAnchorArgument(x).into());
+    }
+    anchor.check_assigned_values(pool)?;
+    anchor.check_not_assigned_in(pool, psi)
 }
 
 pub fn sko_ex(args: RuleArgs) -> RuleResult {
-- 
2.43.0


From 6b4160e857f8e2fbba09cee56da278c70d6fd9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 19/98] fix: reject subproofs closed by ordinary rules, and
 outer premises whose free variables an anchor shadows

---
 carcara/src/checker/shared.rs | 49 ++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..1014548 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -94,7 +94,7 @@ pub struct StepCheckContext<'a> {
 /// and execution logic that's identical between single-threaded and parallel implementations.
 pub fn check_step_core<CR: CollectResults + Send + Default>(
     step: &ProofStep,
-    rule_args: RuleArgs,
+    mut rule_args: RuleArgs,
     context: StepCheckContext,
     stats: &mut Option<&mut CheckerStatistics<CR>>,
 ) -> RuleResult {
@@ -126,6 +126,14 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    if context.is_end_step && !can_close_subproof(&step.rule) {
+        use crate::checker::error::{CheckerError, SubproofError};
+        return Err(CheckerError::Subproof(
+            SubproofError::RuleCantCloseSubproof(step.rule.clone()),
+        ));
+    }
+    check_outer_premises(&mut rule_args, &context)?;
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
@@ -144,6 +152,45 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     Ok(())
 }
 
+/// Returns `true` if the last step of a subproof may use the given rule. Other rules would allow
+/// local assumptions and anchor arguments to escape the subproof.
+fn can_close_subproof(rule: &str) -> bool {
+    matches!(
+        rule,
+        "subproof" | "bind" | "bind_let" | "let" | "onepoint" | "sko_ex" | "sko_forall" | "hole"
+    )
+}
+
+/// Checks that the premises that come from outside the current subproof don't have any free
+/// variables that are shadowed by an anchor. Inside the subproof, these would refer to a different
+/// variable.
+fn check_outer_premises(rule_args: &mut RuleArgs, context: &StepCheckContext) -> RuleResult {
+    use crate::checker::error::{CheckerError, SubproofError};
+
+    // The conclusion of the last step in a subproof is outside of the subproof
+    let depth = context.subproof_depth - context.is_end_step as usize;
+
+    for premise in rule_args.premises {
+        let mut bound = Vec::new();
+        rule_args
+            .context
+            .for_each_bound_var(premise.index.0, depth, |var| bound.push(var.clone().into()));
+        let bound: Vec<_> = bound.into_iter().map(|x| rule_args.pool.add(x)).collect();
+        if bound.is_empty() {
+            continue;
+        }
+        for term in premise.clause {
+            let free_vars = rule_args.pool.free_vars(term);
+            if let Some(x) = bound.iter().find(|&x| free_vars.contains(x)) {
+                return Err(CheckerError::Subproof(
+                    SubproofError::OuterPremiseIsShadowed(x.clone(), premise.id.to_owned()),
+                ));
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Shared discharge checking logic
 pub fn check_discharge_shared(
     subproof: &[ProofCommand],
-- 
2.43.0


From ce708e51dc294973f7cd4a0ec1376fdf130a8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 20/98] fix: require pseudo-Boolean sums to account for every
 bit

The pbblast comparison rules accepted sums with fewer summands than the bit-vectors have bits
(and, in the signed rules, sums that included the sign bit), so high bits could be dropped.
---
 carcara/src/checker/rules/pb_blasting.rs | 70 +++++++++++++-----------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..635eebc 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -16,24 +16,31 @@ fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usize, Checker
     Ok(n)
 }
 
+/// Helper to check that a summation has exactly one summand for each bit it must account for. In the
+/// signed relations the sign bit is not part of the summation, so it has one summand less.
+fn assert_num_summands(width: usize, sum: &[Rc<Term>], signed: bool) -> RuleResult {
+    let num_bits = if signed { sum.len() + 1 } else { sum.len() };
+    rassert!(
+        num_bits == width,
+        CheckerError::Explanation(format!(
+            "Mismatched number of summands {} and bits {}",
+            sum.len(),
+            width
+        ))
+    );
+    Ok(())
+}
+
 // Helper to check that a summation has the expected shape
 fn check_pbblast_sum(
     pool: &mut dyn TermPool,
     bitvector: &Rc<Term>,
     sum: &[Rc<Term>],
+    signed: bool,
 ) -> RuleResult {
     // Obtain the bitvector width from the pool.
     let width = get_bit_width(bitvector, pool)?;
-
-    // The summation must have at most as many summands as the bitvector has bits.
-    rassert!(
-        width >= sum.len(),
-        CheckerError::Explanation(format!(
-            "Mismatched number of summands {} and bits {}",
-            width,
-            sum.len()
-        ))
-    );
+    assert_num_summands(width, sum, signed)?;
 
     for (i, element) in sum.iter().enumerate() {
         // Try to match (* c ((_ @int_of idx) bv))
@@ -81,16 +88,12 @@ fn check_pbblast_sum(
 
 // Helper to check that a summation has the expected shape
 // when the bitvector is a @pbbterm application "short-circuiting"
-fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> RuleResult {
-    // The summation must have at most as many summands as the bitvector has bits.
-    rassert!(
-        pbbterm.len() >= sum.len(),
-        CheckerError::Explanation(format!(
-            "Mismatched number of summands {} and bits {}",
-            pbbterm.len(),
-            sum.len()
-        ))
-    );
+fn check_pbblast_sum_short_circuit(
+    pbbterm: &[Rc<Term>],
+    sum: &[Rc<Term>],
+    signed: bool,
+) -> RuleResult {
+    assert_num_summands(pbbterm.len(), sum, signed)?;
 
     for (i, element) in sum.iter().enumerate() {
         // Try to match (* c bv))
@@ -127,15 +130,16 @@ fn check_pbblast_constraint(
     right_bv: &Rc<Term>,
     left_sum: &[Rc<Term>],
     right_sum: &[Rc<Term>],
+    signed: bool,
 ) -> RuleResult {
     if let Some(pbb_l) = match_term!((pbbterm ...) = left_bv) {
         // Case when x is application of `@pbbterm` so we must short-circuit the indexing
         let pbb_r = match_term_err!((pbbterm ...) = right_bv)?;
-        check_pbblast_sum_short_circuit(pbb_l, left_sum)?;
-        check_pbblast_sum_short_circuit(pbb_r, right_sum)
+        check_pbblast_sum_short_circuit(pbb_l, left_sum, signed)?;
+        check_pbblast_sum_short_circuit(pbb_r, right_sum, signed)
     } else {
-        check_pbblast_sum(pool, left_bv, left_sum)?;
-        check_pbblast_sum(pool, right_bv, right_sum)
+        check_pbblast_sum(pool, left_bv, left_sum, signed)?;
+        check_pbblast_sum(pool, right_bv, right_sum, signed)
     }
 }
 
@@ -152,7 +156,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 
     // Check that the summations have the correct structure.
     // (For equality the order is: sum_x for x and sum_y for y.)
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Implements the unsigned-less-than rule.
@@ -167,7 +171,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, false)
 }
 
 /// Implements the unsigned-greater-than rule.
@@ -183,7 +187,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvugt the summations appear in the same order as in equality.
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Implements the unsigned-greater-or-equal rule.
@@ -198,7 +202,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Implements the unsigned-less-or-equal rule.
@@ -213,7 +217,7 @@ pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, false)
 }
 
 /// Helper that checks the the `sign` term has the format -(2<sup>n-1</sup>) x<sub>n-1</sub>
@@ -278,7 +282,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, true)
 }
 
 /// Implements the signed-greater-than rule.
@@ -299,7 +303,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, true)
 }
 
 /// Implements the signed-greater-equal rule.
@@ -320,7 +324,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, true)
 }
 
 /// Implements the signed-less-equal rule.
@@ -342,7 +346,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvsle the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, true)
 }
 
 /// Implements the blasting of a bitvector variable
-- 
2.43.0


From 1a33bb28d55ed4cf276f8beee1b8025435345b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 21/98] fix: compare pseudo-Boolean constants exactly in
 pbblast_pbbconst

The constants were truncated to 32 bits before being compared to 0 and 1.
---
 carcara/src/checker/rules/pb_blasting.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 635eebc..4dbdfbc 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -399,20 +399,19 @@ pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
                 .ok_or(CheckerError::Explanation(format!(
                     "Non-integer term at position {}",
                     i
-                )))?
-                .to_i32_wrapping();
-
-            match pb {
-                0 => Ok(acc),
-                1 => {
-                    let exponent = i.try_into().unwrap();
-                    let increment = Integer::i_pow_u(2, exponent);
-                    Ok(&acc + Integer::from(increment))
-                }
-                _ => Err(CheckerError::Explanation(format!(
+                )))?;
+
+            if pb == 0 {
+                Ok(acc)
+            } else if pb == 1 {
+                let exponent = i.try_into().unwrap();
+                let increment = Integer::i_pow_u(2, exponent);
+                Ok(&acc + Integer::from(increment))
+            } else {
+                Err(CheckerError::Explanation(format!(
                     "Invalid value {} at position {}",
                     pb, i
-                ))),
+                )))
             }
         })?;
 
-- 
2.43.0


From d0d5b99c2f2fcaa8190280e8d003e1cdffffa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 22/98] fix: reject captured variables in the pbblast bitwise
 rules

The bound variable z of the choice terms could capture an integer variable z used as a bit.
---
 carcara/src/checker/rules/pb_blasting.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 4dbdfbc..b74bfa0 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -448,6 +448,20 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
     }
 }
 
+/// Helper to check that the variable `z`, bound by the choice terms that define the bits of a
+/// bitwise operation, does not capture a variable that occurs in the operands.
+fn assert_no_capture(pool: &mut dyn TermPool, x: &Rc<Term>, y: &Rc<Term>) -> RuleResult {
+    let int_sort = pool.add(Term::Sort(Sort::Int));
+    let z = pool.add(Term::new_var("z", int_sort));
+    for bit in [x, y] {
+        rassert!(
+            !pool.free_vars(bit).contains(&z),
+            CheckerError::Explanation(format!("Variable {z} is captured in bit {bit}"))
+        );
+    }
+    Ok(())
+}
+
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
     let ((x, y), bit_constraints) =
@@ -458,6 +472,7 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
     // Zip three lists into tuples
     for ((bc, xi), yi) in bit_constraints.iter().zip(xs.iter()).zip(ys.iter()) {
+        assert_no_capture(pool, xi, yi)?;
         let (bindings, (c1, c2, c3, c4)) = match_term_err!((choice ... (and c1 c2 c3 c4)) = bc)?;
 
         // Check z -> Int
@@ -521,6 +536,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
     // Zip three lists into tuples
     for ((bc, xi), yi) in bit_constraints.iter().zip(xs.iter()).zip(ys.iter()) {
+        assert_no_capture(pool, xi, yi)?;
         let (bindings, (c1, c2, c3)) = match_term_err!((choice ... (and c1 c2 c3)) = bc)?;
 
         // Check z -> Int
@@ -572,6 +588,7 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
+    assert_no_capture(pool, x, y)?;
     let (c1, c2, c3, c4) = match_term_err!((and c1 c2 c3 c4) = &conclusion[0])?;
 
     // Build the expected choice term
@@ -618,6 +635,7 @@ pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
+    assert_no_capture(pool, x, y)?;
     let (c1, c2, c3) = match_term_err!((and c1 c2 c3) = &conclusion[0])?;
 
     // Build the expected choice term
-- 
2.43.0


From 25794504c56600ae9061c387539736131ac1e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 23/98] fix: check the clause length in the pbblast rules

An empty conclusion made these rules panic.
---
 carcara/src/checker/rules/pb_blasting.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index b74bfa0..df221de 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -1,4 +1,4 @@
-use super::{assert_eq, assert_num_args, RuleArgs, RuleResult};
+use super::{assert_clause_len, assert_eq, assert_num_args, RuleArgs, RuleResult};
 use crate::{
     ast::{Binder, Rc, Sort, Term, TermPool},
     checker::{error::CheckerError, rules::cutting_planes::split_summation},
@@ -147,6 +147,7 @@ fn check_pbblast_constraint(
 /// The expected shape is:
 ///    `(= (= x y) (= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (= x y) (= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -163,6 +164,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 /// The expected shape is:
 ///    `(= (bvult x y) (>= (- (+ sum_y) (+ sum_x)) 1))`
 pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), _)) =
         match_term_err!((= (bvult x y) (>= (- sum_y sum_x) 1)) = &conclusion[0])?;
 
@@ -179,6 +181,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvugt x y) (>= (- (+ sum_x) (+ sum_y)) 1))`
 pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (bvugt x y) (>= (- sum_x sum_y) 1)) = &conclusion[0])?;
 
@@ -195,6 +198,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvuge x y) (>= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), ())) =
         match_term_err!((= (bvuge x y) (>= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -210,6 +214,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvule x y) (>= (- (+ sum_y) (+ sum_x)) 0))`
 pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), ())) =
         match_term_err!((= (bvule x y) (>= (- sum_y sum_x) 0)) = &conclusion[0])?;
 
@@ -269,6 +274,7 @@ fn check_pbblast_signed_relation(n: usize, sign: &Rc<Term>, bitvector: &Rc<Term>
 /// The expected shape is:
 ///    `(= (bvslt x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 1))`
 pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvslt x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -290,6 +296,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsgt x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 1))`
 pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsgt x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -311,6 +318,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsge x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 0))`
 pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsge x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -332,6 +340,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsle x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 0))`
 pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvsle x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -351,6 +360,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the blasting of a bitvector variable
 pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (x, pbs) = match_term_err!((= x (pbbterm ...)) = &conclusion[0])?;
 
     for (i, pb) in pbs.iter().enumerate() {
@@ -375,6 +385,7 @@ pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
 
 /// Implements the blasting of a constant
 pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (bv, pbs) = match_term_err!((= bv (pbbterm ...)) = &conclusion[0])
         .map_err(|_| CheckerError::Explanation("Malformed @pbbterm equality".into()))?;
 
@@ -464,6 +475,7 @@ fn assert_no_capture(pool: &mut dyn TermPool, x: &Rc<Term>, y: &Rc<Term>) -> Rul
 
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvxor x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -528,6 +540,7 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the bitwise and operation.
 pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvand x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -585,6 +598,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvxor rule
 pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
@@ -632,6 +646,7 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvand rule
 pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
-- 
2.43.0


From 1f6e6ae9ce5ac75db0596fd93c63db1acfe12851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 24/98] fix: reject bitblast_equal over terms that are not
 bit-vectors

It reached unreachable!() and panicked.
---
 carcara/src/checker/rules/bitvectors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/bitvectors.rs b/carcara/src/checker/rules/bitvectors.rs
index 1f36650..3674271 100644
--- a/carcara/src/checker/rules/bitvectors.rs
+++ b/carcara/src/checker/rules/bitvectors.rs
@@ -526,7 +526,10 @@ pub fn equality(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     let ((x, y), res) = match_term_err!((= (= x y) res) = &conclusion[0])?;
 
     let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
+        return Err(CheckerError::Explanation(format!(
+            "Could not get BV sort out of term {}",
+            x
+        )));
     };
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
-- 
2.43.0


From 1621bcad46b1f9c1de1ba36ae8723d41a417929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:00 +0000
Subject: [PATCH 25/98] fix: accumulate repeated literals in pseudo-Boolean
 sums

When a literal occurred twice in a sum, all but its last coefficient were silently dropped.
---
 carcara/src/checker/rules/cutting_planes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..f435f7e 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -48,7 +48,7 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
             };
 
         let coeff = coeff.as_integer_err()?;
-        hm.insert(literal, coeff);
+        *hm.entry(literal).or_default() += coeff;
     }
     Ok(hm)
 }
-- 
2.43.0


From a5a438b10c926438a9ce41033edd91f7e303ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 26/98] fix: identify pseudo-Boolean literals by term rather
 than by name

A variable named ~x was taken for the negation of x.
---
 carcara/src/checker/rules/cutting_planes.rs | 36 +++++++++++----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index f435f7e..63bf063 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -7,7 +7,9 @@ use crate::checker::Rc;
 use rug::Integer;
 use std::collections::HashMap;
 
-type PbHash = HashMap<String, Integer>;
+/// A pseudo-Boolean literal: the term, and whether it is negated
+type PbLiteral = (Rc<Term>, bool);
+type PbHash = HashMap<PbLiteral, Integer>;
 
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
@@ -39,10 +41,10 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, (literal.clone(), true))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
-                (coeff, format!("{}",literal))
+                (coeff, (literal.clone(), false))
             } else {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
@@ -70,21 +72,21 @@ fn add_pbsums(pbsum_a: &PbHash, pbsum_b: &PbHash) -> PbHash {
     res
 }
 
-fn is_negated_literal(lit: &str) -> bool {
-    lit.starts_with('~')
+fn is_negated_literal((_, negated): &PbLiteral) -> bool {
+    *negated
+}
+
+fn opposite_literal((lit, negated): &PbLiteral) -> PbLiteral {
+    (lit.clone(), !negated)
 }
 
 trait NegatedLiterals {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer>;
+    fn get_opposite(&self, lit: &PbLiteral) -> Option<&Integer>;
 }
 
 impl NegatedLiterals for PbHash {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer> {
-        if let Some(plain_lit) = lit.strip_prefix('~') {
-            self.get(plain_lit)
-        } else {
-            self.get(&format!("~{}", lit))
-        }
+    fn get_opposite(&self, lit: &PbLiteral) -> Option<&Integer> {
+        self.get(&opposite_literal(lit))
     }
 }
 
@@ -92,7 +94,7 @@ impl NegatedLiterals for PbHash {
 fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
     let mut slack = Integer::from(0);
     let mut res = pbsum.clone();
-    let mut changes: Vec<(String, Integer)> = Vec::new();
+    let mut changes: Vec<(PbLiteral, Integer)> = Vec::new();
 
     for lit in res.keys() {
         if is_negated_literal(lit) {
@@ -112,11 +114,11 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
         if pos > neg {
             let diff = pos.clone() - neg;
             changes.push((lit.clone(), diff)); // Update lit to diff
-            changes.push((format!("~{lit}"), Integer::from(0))); // Set ~lit to 0
+            changes.push((opposite_literal(lit), Integer::from(0))); // Set ~lit to 0
         } else {
             let diff = neg.clone() - pos;
             changes.push((lit.clone(), Integer::from(0))); // Set lit to 0
-            changes.push((format!("~{lit}"), diff)); // Update ~lit to neg - pos
+            changes.push((opposite_literal(lit), diff)); // Update ~lit to neg - pos
         }
     }
 
@@ -141,7 +143,7 @@ fn assert_pbsum_subset_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), Ch
 
         if pbsum_b.get(key).is_none() {
             return Err(CheckerError::Explanation(format!(
-                "Key {} of {:?} not found in {:?}",
+                "Key {:?} of {:?} not found in {:?}",
                 key, pbsum_b, pbsum_a
             )));
         }
@@ -219,7 +221,7 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-                    "Literal of the conclusion not present in either premises: {}",
+                    "Literal of the conclusion not present in either premises: {:?}",
                     literal
                 )));
             }
-- 
2.43.0


From 91de4881acf331d5602688851d10cfa61cfe8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 27/98] fix: reject negative scalars in cp_multiplication

---
 carcara/src/checker/rules/cutting_planes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 63bf063..3ee05e7 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -241,6 +241,12 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
     assert_num_args(args, 1)?;
     let scalar: Integer = args[0].as_integer_err()?;
 
+    // Multiplying by a negative scalar would flip the inequality
+    rassert!(
+        scalar >= 0,
+        CheckerError::ExpectedNonnegInteger(args[0].clone())
+    );
+
     // Check there is exactly one conclusion
     assert_clause_len(conclusion, 1)?;
     let conclusion = &conclusion[0];
-- 
2.43.0


From b3b51cd988fddce43655debe1b0aa453ad0a1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 28/98] fix: check the length of the clauses in cp_division,
 cp_saturation and cp_literal

Only the first literal of the premise was looked at, and empty clauses made these rules panic.
---
 carcara/src/checker/rules/cutting_planes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 3ee05e7..33c4eec 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -281,6 +281,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -332,6 +333,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
     assert_num_args(args, 0)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one conclusion
@@ -369,6 +371,7 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
+    assert_clause_len(conclusion, 1)?;
     // TODO: Set args type to FF 2
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
-- 
2.43.0


From 1322c1ece046e3f9365390e2d3743d7000ffa4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 29/98] fix: reject negative coefficients and degrees in
 cp_saturation

---
 carcara/src/checker/rules/cutting_planes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 33c4eec..d9104df 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -355,6 +355,12 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     // Verify premise and conclusion share same keys
     assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
 
+    // Saturation is only sound if the degree and all coefficients are non-negative
+    rassert!(
+        constant_p >= 0 && pbsum_p.values().all(|coeff| *coeff >= 0),
+        CheckerError::Explanation("Cannot saturate negative coefficients or constants".into())
+    );
+
     // Verify saturation of variables match
     for (literal, coeff_p) in pbsum_p {
         if let Some(coeff_c) = pbsum_c.get(&literal) {
-- 
2.43.0


From 17fafb553bbd1fb93024dcd0e72fc538e6c8d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 30/98] fix: handle unary minus in cp_normalize

(- x) was flattened to x.
---
 carcara/src/checker/rules/cutting_planes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index d9104df..f03eb46 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -578,6 +578,11 @@ fn flatten_addition_tree(
 ) -> Result<(Vec<CoeffTimesVar<'_>>, Integer), CheckerError> {
     match term.as_ref() {
         Term::Op(Operator::Add, args) => accumulate_sum(args),
+        Term::Op(Operator::Sub, args) if args.len() == 1 => {
+            let (mut vars, constant) = flatten_addition_tree(&args[0])?;
+            negate_sum(&mut vars);
+            Ok((vars, -constant))
+        }
         Term::Op(Operator::Sub, args) => {
             let (mut va, ca) = flatten_addition_tree(&args[0])?;
             let (mut vb, cb) = accumulate_sum(&args[1..])?;
-- 
2.43.0


From ebcbeefac43b5242a9fbe737b59831dcefd24a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 31/98] fix: do not identify doubly negated literals with
 negated ones in cp_normalize

(- 1 (- 1 l)) was considered equal to the negation of l.
---
 carcara/src/checker/rules/cutting_planes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index f03eb46..327729f 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -483,6 +483,9 @@ impl PartialEq for CoeffTimesVar<'_> {
         // has shape `(- 1 l)`  and the negated has shape `l`
 
         // * 1. self is `negated l`, other is `!negated (- 1 l)`
+        if self.negated == other.negated {
+            return false;
+        }
         if self.negated {
             if let Some((_, l)) = match_term!((- 1 l) = other.var) {
                 return l == self.var;
-- 
2.43.0


From 200649779a73f90cda10f9140fa61484ad935de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 32/98] fix: compare zero coefficients in cp_addition

A literal with coefficient zero in the conclusion was accepted whatever its coefficient should be.
---
 carcara/src/checker/rules/cutting_planes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 327729f..126a9a1 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -208,9 +208,6 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
     // Verify pseudo-boolean sums match
     for (literal, coeff_c) in &pbsum_c {
-        if *coeff_c == 0 {
-            continue;
-        }
         match pbsum_lr_reduced.get(literal) {
             Some(coeff_lr_reduced) => {
                 rassert!(
@@ -218,6 +215,8 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
                     CheckerError::ExpectedInteger(coeff_lr_reduced.clone(), conclusion.clone())
                 );
             }
+            // Literals with a zero coefficient may appear only in the conclusion
+            None if *coeff_c == 0 => (),
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-- 
2.43.0


From cd5886262f9ec019f85a2b8fb897c3fca6611a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 33/98] fix: do not panic on malformed drup arguments

---
 carcara/src/drup.rs       | 8 ++------
 carcara/src/parser/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 052267f..6c0720a 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -236,17 +236,13 @@ pub fn check_drup(
     let mut drup_history: DRupStory = vec![];
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
-            let clause_term = if terms.is_empty() {
-                terms[0].clone()
-            } else {
-                build_term!(pool, (cl[terms.to_vec()]))
-            };
+            let clause_term = build_term!(pool, (cl[terms.to_vec()]));
             premises.remove(&hash_term(pool, &clause_term));
             drup_history.push(DRupProofAction::Delete(clause_term));
             continue;
         }
 
-        let terms = match_term!((cl ...) = &t).unwrap();
+        let terms = match_term!((cl ...) = &t).ok_or(DrupFormatError::PotentialNoDrupFormat)?;
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6dccfa3..f6eade3 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -489,8 +489,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             }
             Operator::Cl => {}
             Operator::Delete => {
-                SortError::assert_eq(&Sort::Bool, sorts[0])?;
                 assert_num_args(&args, 1)?;
+                SortError::assert_eq(&Sort::Bool, sorts[0])?;
             }
             Operator::BvAdd
             | Operator::BvMul
-- 
2.43.0


From 14280fbaa133cd5316c7e9a043c3f6b3e7d2aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 34/98] fix: only conclude the empty clause after a RAT
 addition

---
 carcara/src/drup.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 6c0720a..5f9ad04 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -40,6 +40,8 @@ pub enum DrupFormatError {
     CheckingRatInEmptyClause,
     #[error("the clause isn't in RAT format")]
     NotInRatFormat,
+    #[error("only the empty clause can be concluded after adding a RAT clause that isn't RUP")]
+    RatWithNonEmptyConclusion,
 }
 
 pub fn hash_term<T: Borrow<Rc<Term>>>(pool: &mut dyn TermPool, term: T) -> u64 {
@@ -233,6 +235,10 @@ pub fn check_drup(
         })
         .collect();
 
+    // Adding a clause that is RAT but not RUP only preserves satisfiability, so from then on only the
+    // empty clause can be concluded
+    let mut used_rat = false;
+
     let mut drup_history: DRupStory = vec![];
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
@@ -246,6 +252,7 @@ pub fn check_drup(
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
+            used_rat = true;
         }
 
         if unit_history.is_none() {
@@ -272,10 +279,14 @@ pub fn check_drup(
         premises.insert(hash_term(pool, t), terms_indexed_set);
     }
 
-    if !premises.contains_key(&hash_term(pool, conclusion)) {
+    if !premises.contains_key(&hash_term(pool, &conclusion)) {
         return Err(DrupFormatError::NoConclusionInPremise);
     }
 
+    if used_rat && match_term!((cl ...) = &conclusion).is_some_and(|lits| !lits.is_empty()) {
+        return Err(DrupFormatError::RatWithNonEmptyConclusion);
+    }
+
     Ok(drup_history)
 }
 
-- 
2.43.0


From a857a7b6800afccfeb2a4bd61de66a606fd6e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 35/98] fix: do not print debug output when checking
 re_concat_unfold_pos

---
 carcara/src/checker/rules/strings.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 1bc6fbb..edba243 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1323,9 +1323,6 @@ pub fn re_concat_unfold_pos(RuleArgs { premises, conclusion, pool, .. }: RuleArg
         _ => Err(CheckerError::TermOfWrongForm("(re.++ ...)", r.clone())),
     }?;
 
-    println!("concluded: {}", &conclusion[0]);
-    println!("epxanded: {}", &expanded);
-
     assert_eq(&conclusion[0], &expanded)
 }
 
-- 
2.43.0


From 49a5bee2abc0f4e805b767330683308452784f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 36/98] fix: measure string constants in characters instead of
 bytes

---
 carcara/src/checker/rules/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index edba243..7e04583 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -285,7 +285,7 @@ fn strip_prefix_or_suffix(
 /// constant of size one.
 fn string_check_length_one(term: Rc<Term>) -> Result<(), CheckerError> {
     if let Term::Const(Constant::String(s)) = term.as_ref() {
-        if s.len() == 1 {
+        if s.chars().count() == 1 {
             return Ok(());
         }
     }
@@ -552,7 +552,7 @@ fn str_fixed_len_re(pool: &mut dyn TermPool, r: Rc<Term>) -> Result<usize, Check
         Term::Op(Operator::StrToRe, args) => {
             let s_1 = args.first().unwrap();
             match s_1.as_ref() {
-                Term::Const(Constant::String(s)) => Ok(s.len()),
+                Term::Const(Constant::String(s)) => Ok(s.chars().count()),
                 _ => Err(CheckerError::LengthCannotBeEvaluated(r.clone())),
             }
         }
-- 
2.43.0


From 4e924bfb6101c6ea8d4c85647851b085e40cbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 37/98] fix: require constant words in concat_cprop and use the
 last component in concat_cprop_suffix

---
 carcara/src/checker/rules/strings.rs | 36 ++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 7e04583..771d848 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -326,6 +326,19 @@ fn build_str_suffix_len(pool: &mut dyn TermPool, s: Rc<Term>, n: Rc<Term>) -> Rc
     build_term!(pool, (strsubstr {s.clone()} (- (strlen {s.clone()}) {n.clone()}) {n.clone()}))
 }
 
+/// Flattens a term that must be a (possibly empty) constant word, that is, one whose flat form
+/// consists only of String constants of length one.
+fn flatten_constant_word(
+    pool: &mut dyn TermPool,
+    term: &Rc<Term>,
+) -> Result<Vec<Rc<Term>>, CheckerError> {
+    let flattened = string_concat_flatten(pool, term.clone());
+    for c in &flattened {
+        string_check_length_one(c.clone())?;
+    }
+    Ok(flattened)
+}
+
 /// Helper function to properly extract the arguments of the `concat_cprop` rule.
 fn extract_arguments(t: &Rc<Term>) -> Result<Vec<Rc<Term>>, CheckerError> {
     let args_t = match t.as_ref() {
@@ -1051,12 +1064,13 @@ pub fn concat_cprop_prefix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let sc = string_concat_flatten(pool, ss[0].clone());
-    let sc_tail = sc[1..].to_vec();
-
-    let t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    let sc = flatten_constant_word(pool, &ss[0])?;
+    let t_2_flat = flatten_constant_word(pool, &args_t[1])?;
+    let [_, sc_tail @ ..] = &sc[..] else {
+        return Err(CheckerError::ExpectedToNotBeEmpty(ss[0].clone()));
+    };
 
-    let v = 1 + overlap(sc_tail.clone(), t_2_flat.clone());
+    let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
     let oc = build_skolem_prefix(pool, ss[0].clone(), v);
     let oc_len = build_term!(pool, (strlen {oc.clone()}));
@@ -1097,16 +1111,18 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let mut sc = string_concat_flatten(pool, ss[1].clone());
+    let last = ss.last().unwrap();
+    let mut sc = flatten_constant_word(pool, last)?;
     sc.reverse();
-    let sc_tail = &sc[1..];
-
-    let mut t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    let mut t_2_flat = flatten_constant_word(pool, &args_t[1])?;
     t_2_flat.reverse();
+    let [_, sc_tail @ ..] = &sc[..] else {
+        return Err(CheckerError::ExpectedToNotBeEmpty(last.clone()));
+    };
 
     let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
-    let oc = build_str_suffix_len(pool, ss[1].clone(), v);
+    let oc = build_str_suffix_len(pool, last.clone(), v);
 
     let rhs = build_term!(pool, (- (strlen {t_2.clone()}) (strlen {oc.clone()})));
     let r = build_skolem_prefix(pool, t_2.clone(), rhs.clone());
-- 
2.43.0


From 8e92293024bfdb45b8d9675514693e2af120fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 38/98] fix: expand string constants consistently on both sides
 of the concat rules

---
 carcara/src/checker/rules/strings.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 771d848..336c36c 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -111,9 +111,11 @@ fn expand_string_constants(pool: &mut dyn TermPool, term: &Rc<Term>) -> Rc<Term>
                 let mut new_args = Vec::new();
                 // (str.++ "a" (str.++ "b" "c")) => (str.++ "a" "b" "c")
                 for arg in args {
-                    new_args.extend(string_concat_flatten(pool, arg.clone()));
+                    for component in string_concat_flatten(pool, arg.clone()) {
+                        new_args.push(expand_string_constants(pool, &component));
+                    }
                 }
-                pool.add(Term::Op(*op, new_args))
+                concat(pool, new_args)
             }
             _ => {
                 let new_args = args
@@ -607,6 +609,7 @@ pub fn concat_eq(
         (= {ss_concat.clone()} {ts_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -643,6 +646,7 @@ pub fn concat_unify(
         (= {s_concat.clone()} {t_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -738,6 +742,7 @@ pub fn concat_csplit_prefix(
         (= {t_1.clone()} {right_eq_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -786,6 +791,7 @@ pub fn concat_csplit_suffix(
         (= {t_2.clone()} {right_eq_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
-- 
2.43.0


From b03764dfa7337d3baa077250031b12aac2d0eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 39/98] fix: avoid capturing L in re_unfold_neg

---
 carcara/src/checker/rules/strings.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 336c36c..74cccca 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1357,6 +1357,13 @@ pub fn re_unfold_neg(RuleArgs { premises, conclusion, pool, .. }: RuleArgs) -> R
 
     let int_sort = pool.add(Term::Sort(Sort::Int));
     let l = pool.add(Term::new_var("L", int_sort.clone()));
+    if pool.free_vars(term).contains(&l) {
+        // The quantifier introduced by this rule would capture the variable
+        return Err(CheckerError::TermOfWrongForm(
+            "a term without free occurrences of L",
+            term.clone(),
+        ));
+    }
     let pref = build_skolem_prefix(pool, t.clone(), l.clone());
     let suff = build_skolem_suffix_rem(pool, t.clone(), l.clone());
 
-- 
2.43.0


From 5caaf12c44a7497d306515270b837f48535c02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 40/98] fix: read empty disjunctions as false and empty
 conjunctions as true in rare rules

---
 carcara/src/rare/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/rare/mod.rs b/carcara/src/rare/mod.rs
index cc8fc2a..b9793ce 100644
--- a/carcara/src/rare/mod.rs
+++ b/carcara/src/rare/mod.rs
@@ -9,8 +9,8 @@ pub fn get_rules() -> Vec<(RewriteTerm, RewriteTerm)> {
     vec![
         build_equation!((RareList ..x..) ~> x),
         build_equation!((Or true) ~> true),
-        build_equation!((Or) ~> true),
-        build_equation!((And) ~> false),
+        build_equation!((Or) ~> false),
+        build_equation!((And) ~> true),
         build_equation!((And false) ~> false),
     ]
 }
-- 
2.43.0


From 9a77fc5b91029c6681b799e29dfabf4a7581da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 41/98] fix: reject rare rules with undeclared arguments
 instead of panicking

---
 carcara/src/parser/rare/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/carcara/src/parser/rare/mod.rs b/carcara/src/parser/rare/mod.rs
index e3c2473..fb8a4be 100644
--- a/carcara/src/parser/rare/mod.rs
+++ b/carcara/src/parser/rare/mod.rs
@@ -131,6 +131,15 @@ impl<'a, R: BufRead> Parser<'a, R> {
             ));
         }
 
+        for arg in body.args {
+            if !parameters.iter().any(|(name, _)| name == arg) {
+                return Err(Error::Parser(
+                    ParserError::UndefinedIden(arg.clone()),
+                    self.current_position,
+                ));
+            }
+        }
+
         Ok(RuleDefinition {
             name,
             parameters: parameters.iter().cloned().collect(),
-- 
2.43.0


From d3371f2375490d7aad40663c701203c430d47cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 42/98] fix: do not replace the parameters of rare rules by
 functions defined in the problem

---
 carcara/src/parser/rare/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/parser/rare/mod.rs b/carcara/src/parser/rare/mod.rs
index fb8a4be..97746aa 100644
--- a/carcara/src/parser/rare/mod.rs
+++ b/carcara/src/parser/rare/mod.rs
@@ -114,7 +114,13 @@ impl<'a, R: BufRead> Parser<'a, R> {
             conclusion: None,
         };
 
+        // Inside the rule, the parameters shadow any functions defined in the problem
+        let shadowed: Vec<_> = parameters
+            .iter()
+            .filter_map(|(name, _)| self.state.function_defs.shift_remove_entry(name))
+            .collect();
         let body = self.parse_sequence(Self::parse_body, false)?;
+        self.state.function_defs.extend(shadowed);
         let body = body.iter().fold(body_definitions, |mut body, x| {
             match x {
                 Body::Conclusion(term) => body.conclusion = Some((*term).clone()),
-- 
2.43.0


From 212bfbcf7cac703642f6ecd8cf5d89dd449ec0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 43/98] fix: only accept lists as values of list parameters of
 rare rules

---
 carcara/src/checker/rules/rare.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index 0a48c6e..0975206 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,7 +1,7 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{Constant, Substitution, Term},
+    ast::{rare_rules::AttributeParameters, Constant, Operator, Substitution, Term},
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
@@ -41,9 +41,22 @@ pub fn check_rare(
 
         for arg in rare_term.arguments.iter().rev() {
             let arg_sort = rare_term.parameters.get(arg).unwrap();
+            let value = arguments.next().unwrap();
+
+            // Lists are spliced into the terms where they appear, so they can only be the value of
+            // a list parameter
+            if arg_sort.attribute != AttributeParameters::List
+                && matches!(value.as_ref(), Term::Op(Operator::RareList, _))
+            {
+                return Err(CheckerError::RareMisMatchTypes(
+                    arg.clone(),
+                    arg_sort.term.clone(),
+                    pool.sort(value),
+                ));
+            }
             map.insert(
                 pool.add(Term::Var(arg.clone(), arg_sort.term.clone())),
-                arguments.next().unwrap().clone(),
+                value.clone(),
             );
         }
 
-- 
2.43.0


From 27ae462110cf2bbe0712a9fec8f0d88c8d19e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 44/98] fix: accept lists for list parameters of rare rules
 with a concrete sort

---
 carcara/src/ast/substitution.rs   |  8 ++++++++
 carcara/src/checker/rules/rare.rs | 34 +++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 10f102c..273d937 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -130,6 +130,14 @@ impl Substitution {
         Ok(())
     }
 
+    /// Extends the substitution by adding a new mapping from `x` to `t`, without checking that they
+    /// have the same sort.
+    pub(crate) fn insert_unchecked(&mut self, x: Rc<Term>, t: Rc<Term>) {
+        self.should_be_renamed = None;
+        self.cache.clear();
+        self.map.insert(x, t);
+    }
+
     /// Removes all mappings from the substitution that become invalid when the variable `x` is
     /// shadowed, that is, any mapping from `x`, and any mapping to a term where `x` is free.
     ///
diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index 0975206..f9950a6 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,7 +1,7 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{rare_rules::AttributeParameters, Constant, Operator, Substitution, Term},
+    ast::{rare_rules::AttributeParameters, Constant, Operator, Sort, Substitution, Term},
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
@@ -38,6 +38,7 @@ pub fn check_rare(
 
         let mut arguments = args.iter().rev();
         let mut map = IndexMap::new();
+        let mut lists = Vec::new();
 
         for arg in rare_term.arguments.iter().rev() {
             let arg_sort = rare_term.parameters.get(arg).unwrap();
@@ -54,10 +55,28 @@ pub fn check_rare(
                     pool.sort(value),
                 ));
             }
-            map.insert(
-                pool.add(Term::Var(arg.clone(), arg_sort.term.clone())),
-                value.clone(),
-            );
+            let var = pool.add(Term::Var(arg.clone(), arg_sort.term.clone()));
+
+            match value.as_ref() {
+                // The sort of a list parameter is the sort of its elements
+                Term::Op(Operator::RareList, elements) => {
+                    let polymorphic = arg_sort.term.as_sort().is_some_and(Sort::is_polymorphic);
+                    if let Some(e) = elements
+                        .iter()
+                        .find(|e| !polymorphic && pool.sort(e) != arg_sort.term)
+                    {
+                        return Err(CheckerError::RareMisMatchTypes(
+                            arg.clone(),
+                            arg_sort.term.clone(),
+                            pool.sort(e),
+                        ));
+                    }
+                    lists.push((var, value.clone()));
+                }
+                _ => {
+                    map.insert(var, value.clone());
+                }
+            }
         }
 
         if rare_term.premises.len() != premises.len() {
@@ -67,7 +86,10 @@ pub fn check_rare(
         }
 
         let mut rare_premises = rare_term.premises.iter();
-        let mut subst = Substitution::new(pool, map.clone())?;
+        let mut subst = Substitution::new(pool, map)?;
+        for (var, list) in lists {
+            subst.insert_unchecked(var, list);
+        }
 
         for premise in premises {
             let premise = get_premise_term(premise)?;
-- 
2.43.0


From b20a93559e495e22164e307320e4791bc08653be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 45/98] fix: do not treat the empty symbol as the end of the
 root proof

---
 carcara/src/parser/mod.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index f6eade3..04f6fd8 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -844,10 +844,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
         //
         // Each frame of the stack stores the subproof that is being constructed, the id of the
         // step that will end it, and a bool representing whether a `step` has been issued yet.
-        // The first frame of the stack represents the root proof, so every
-        // field except for the subproof commands is irrelevant.
-        let mut stack: Vec<(Subproof, String, bool)> =
-            vec![(Subproof::default(), String::new(), false)];
+        // The first frame of the stack represents the root proof, which is not ended by any step.
+        let mut stack: Vec<(Subproof, Option<String>, bool)> =
+            vec![(Subproof::default(), None, false)];
 
         let mut next_subproof_context_id = 0;
 
@@ -926,7 +925,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         args,
                         context_id: next_subproof_context_id,
                     };
-                    stack.push((subproof, end_step_id, false));
+                    stack.push((subproof, Some(end_step_id), false));
                     next_subproof_context_id += 1;
                     continue;
                 }
@@ -944,7 +943,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
             let (top_subproof, top_end_step, _) = stack.last_mut().unwrap();
             top_subproof.commands.push(command);
-            if top_end_step == id.as_ref() {
+            if top_end_step.as_ref() == Some(id.as_ref()) {
                 // If this is the last step in a subproof, we need to pop all the subproof data off
                 // of the stacks and build the subproof command with it
                 self.state.symbol_table.pop_scope();
@@ -988,7 +987,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
             // closed before the outer proof is finished
             _ => {
                 return Err(Error::Parser(
-                    ParserError::UnclosedSubproof(stack.pop().unwrap().1),
+                    ParserError::UnclosedSubproof(stack.pop().unwrap().1.unwrap()),
                     self.current_position,
                 ))
             }
-- 
2.43.0


From 830153756cfc83280f7b394030f235996288939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 46/98] fix: do not panic on schedules that only held useless
 context insertions

---
 carcara/src/checker/parallel/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/scheduler.rs b/carcara/src/checker/parallel/scheduler.rs
index 16a0cd5..159fe03 100644
--- a/carcara/src/checker/parallel/scheduler.rs
+++ b/carcara/src/checker/parallel/scheduler.rs
@@ -121,7 +121,11 @@ impl Scheduler {
                 top.id == top.cmds.len()
             } {
                 for schedule_id in &stack.last().unwrap().used_by {
-                    let last = loads[*schedule_id].last().unwrap();
+                    let Some(last) = loads[*schedule_id].last() else {
+                        // The only commands assigned to this schedule were useless context
+                        // insertions, that were already removed
+                        continue;
+                    };
                     // If it's an useless context insertion
                     if last.0 < stack.len()
                         && matches!(stack[last.0].cmds[last.1], ProofCommand::Subproof(_))
-- 
2.43.0


From 691dffc2185f77d10c305f5b61fffa0d3fc22de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 47/98] fix: find the empty clause concluded by a top-level
 subproof in parallel

---
 carcara/src/checker/parallel/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..9d11dc9 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -290,7 +290,9 @@ impl<'c> ParallelProofChecker<'c> {
                             }
                         })?;
 
-                    if step.clause.is_empty() && self.context.is_empty() {
+                    // The conclusion of a step that ends a subproof is outside of that subproof
+                    let depth = iter.depth() - usize::from(iter.is_end_step());
+                    if step.clause.is_empty() && depth == 0 {
                         self.reached_empty_clause = true;
                     }
                 }
-- 
2.43.0


From 10905fcf39834b88735317fe4561a013fa613510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 48/98] fix: return the sort, not the term, for terms of the
 shared pool

---
 carcara/src/ast/pool/advanced.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..d765041 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -117,8 +117,8 @@ impl TermPool for LocalPool {
             sort.clone()
         }
         // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
+        else if let Some(sort) = self.ctx_pool.inner.read().unwrap().sorts_cache.get(term) {
+            sort.clone()
         } else {
             self.inner.sorts_cache[term].clone()
         }
-- 
2.43.0


From 466d2ec8fa8561b7fc924c17b791beb6358623b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 49/98] fix: do not share substitutions with terms of a
 thread's own pool between threads

---
 carcara/src/ast/context.rs | 74 +++++++++-----------------------------
 1 file changed, 17 insertions(+), 57 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index e163bdc..411c3fb 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -4,14 +4,12 @@ use std::sync::{atomic::AtomicUsize, Arc, RwLock, RwLockReadGuard, RwLockWriteGu
 #[derive(Debug)]
 pub struct Context {
     pub args: Vec<AnchorArg>,
-    pub cumulative_substitution: Option<Substitution>,
 }
 
 impl Context {
-    /// Builds a new context form the arguments to an `anchor`. This does not initalize the
-    /// `cumulative_substitution` field.
+    /// Builds a new context form the arguments to an `anchor`.
     fn new(args: Vec<AnchorArg>) -> Self {
-        Self { args, cumulative_substitution: None }
+        Self { args }
     }
 }
 
@@ -34,7 +32,10 @@ pub struct ContextStack {
     context_vec: Arc<Vec<ContextInfo>>,
     /// The stack of contexts id (works just like a map to `context_vec`).
     stack: Vec<usize>,
-    num_cumulative_calculated: usize,
+    /// The cumulative substitutions of the first contexts in the stack, as far as they were already
+    /// calculated. These are not shared between threads, as they contain terms that are built in
+    /// the thread's own term pool.
+    cumulative_substitutions: Vec<Substitution>,
 }
 
 impl ContextStack {
@@ -55,7 +56,7 @@ impl ContextStack {
         Self {
             context_vec,
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -65,7 +66,7 @@ impl ContextStack {
         Self {
             context_vec: self.context_vec.clone(),
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -145,8 +146,9 @@ impl ContextStack {
         if let Some(id) = self.stack.pop() {
             let this_context = &self.context_vec[id];
 
-            let mut remaining_threads = this_context.0.load(Ordering::Acquire);
-            remaining_threads = remaining_threads
+            let remaining_threads = this_context
+                .0
+                .fetch_sub(1, Ordering::AcqRel)
                 .checked_sub(1)
                 .expect("A thread tried to access a context not allocated for it.");
 
@@ -154,38 +156,18 @@ impl ContextStack {
                 // Drop this context since the last thread stopped using it
                 *this_context.1.write().unwrap() = None;
             }
-            this_context.0.store(remaining_threads, Ordering::Release);
         }
 
-        self.num_cumulative_calculated =
-            std::cmp::min(self.num_cumulative_calculated, self.stack.len());
+        self.cumulative_substitutions.truncate(self.stack.len());
     }
 
     fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool, up_to: usize) {
-        for i in self.num_cumulative_calculated..std::cmp::max(up_to + 1, self.len()) {
-            // Requires read guard. Since the i-th context will be mutated far
-            // below this line, we first take the read guard here and then, when
-            // necessary, we require the write guard. This tries to avoid bigger
-            // overheads
+        for i in self.cumulative_substitutions.len()..=up_to {
             let context_guard = self.context_vec[self.stack[i]].1.read().unwrap();
             let current_context = context_guard.as_ref().unwrap();
 
             let mut substitution = if i > 0 {
-                // Waits until OS allows to read this previous context. The code structure
-                // makes sure that this context, when released for reading, will be already
-                // instantiated since there are only 2 cases:
-                //  - This thread was responsible for building this previous context. Then
-                //      this context has already been built.
-                //  - Another thread was assigned to build this context. Then, it doesn't
-                //      matter if this other thread has already finished the process, the
-                //      current thread will have to wait until the guard is released.
-                let guard = self.context_vec[self.stack[i - 1]].1.read().unwrap();
-                guard
-                    .as_ref()
-                    .unwrap()
-                    .cumulative_substitution
-                    .clone()
-                    .unwrap()
+                self.cumulative_substitutions[i - 1].clone()
             } else {
                 Substitution::empty()
             };
@@ -213,11 +195,7 @@ impl ContextStack {
                 }
             }
 
-            // Drop the read guard, and acquire a write guard
-            drop(context_guard);
-            let mut context_guard = self.context_vec[self.stack[i]].1.write().unwrap();
-            context_guard.as_mut().unwrap().cumulative_substitution = Some(substitution);
-            self.num_cumulative_calculated = i + 1;
+            self.cumulative_substitutions.push(substitution);
         }
     }
 
@@ -227,16 +205,7 @@ impl ContextStack {
         } else {
             let index = self.len() - 2;
             self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 
@@ -246,16 +215,7 @@ impl ContextStack {
         } else {
             let index = self.len() - 1;
             self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 }
-- 
2.43.0


From 1872604c33ffd73076954653742e48ae7b8f6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 50/98] fix: share the sorts of the global pool with the local
 pools of threads

---
 carcara/src/ast/pool/advanced.rs |  26 +++--
 carcara/src/ast/pool/mod.rs      | 170 +++++++++++++++++++++++--------
 2 files changed, 137 insertions(+), 59 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index d765041..51279da 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -43,10 +43,10 @@ impl TermPool for ContextPool {
         if let Some(entry) = self.global_pool.storage.get(&term) {
             return entry.clone();
         }
-        let mut ctx_guard = self.inner.write().unwrap();
-        let term = ctx_guard.storage.add(term);
-        ctx_guard.compute_sort(&term);
-        term
+        self.inner
+            .write()
+            .unwrap()
+            .add_with_priorities(term, [&self.global_pool])
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
@@ -100,16 +100,14 @@ impl LocalPool {
 
 impl TermPool for LocalPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        // If there is a constant pool and has the term
-        if let Some(entry) = self.ctx_pool.global_pool.storage.get(&term) {
-            entry.clone()
-        }
-        // If this term was inserted by the context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(&term) {
-            entry.clone()
-        } else {
-            self.inner.add(term)
-        }
+        // The term may be in the constant pool, or it may have been inserted by the context
+        self.inner.add_with_priorities(
+            term,
+            [
+                &self.ctx_pool.global_pool,
+                &self.ctx_pool.inner.read().unwrap(),
+            ],
+        )
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index c0872b4..4c61cf4 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -69,8 +69,18 @@ impl PrimitivePool {
         Self::default()
     }
 
-    /// Computes the sort of a term and adds it to the sort cache.
-    fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
+    /// Computes the sort of a term and adds it to the sort cache. If the sort of the term is already
+    /// known in one of the prior pools, that is returned instead.
+    fn compute_sort<const N: usize>(
+        &mut self,
+        term: &Rc<Term>,
+        prior_pools: [&PrimitivePool; N],
+    ) -> Rc<Term> {
+        for p in prior_pools {
+            if let Some(sort) = p.sorts_cache.get(term) {
+                return sort.clone();
+            }
+        }
         if let Some(sort) = self.sorts_cache.get(term) {
             return sort.clone();
         }
@@ -137,7 +147,12 @@ impl PrimitivePool {
                 | Operator::BvSRem
                 | Operator::BvSMod
                 | Operator::BvAShr => {
-                    match self.compute_sort(&args[0]).as_sort().unwrap().clone() {
+                    match self
+                        .compute_sort(&args[0], prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone()
+                    {
                         Sort::BitVec(width) => Sort::BitVec(width),
                         Sort::ParamSort(v, head) => {
                             if let Some(Sort::Var(_)) = head.as_sort() {
@@ -157,7 +172,10 @@ impl PrimitivePool {
                     }
                     _ => Sort::ParamSort(
                         vec![args[1].clone()],
-                        self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
+                        self.add_with_priorities(
+                            Term::Sort(Sort::Var("BitVec".to_owned())),
+                            prior_pools,
+                        ),
                     ),
                 },
                 Operator::BvConcat => {
@@ -167,7 +185,12 @@ impl PrimitivePool {
                     }
                     let mut total_width: Vec<TotalWidth> = vec![];
                     for arg in args {
-                        match self.compute_sort(arg).as_sort().unwrap().clone() {
+                        match self
+                            .compute_sort(arg, prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
+                        {
                             Sort::BitVec(arg_width) => {
                                 total_width.push(TotalWidth::Width(arg_width));
                             }
@@ -186,17 +209,21 @@ impl PrimitivePool {
                             total_width
                                 .iter()
                                 .map(|x| match x {
-                                    TotalWidth::Width(w) => {
-                                        self.add(Term::Const(Constant::Integer((*w).into())))
-                                    }
+                                    TotalWidth::Width(w) => self.add_with_priorities(
+                                        Term::Const(Constant::Integer((*w).into())),
+                                        prior_pools,
+                                    ),
                                     TotalWidth::ParamSort(p) => p.clone(),
                                 })
                                 .collect(),
                         );
 
                         Sort::ParamSort(
-                            vec![self.add(add)],
-                            self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
+                            vec![self.add_with_priorities(add, prior_pools)],
+                            self.add_with_priorities(
+                                Term::Sort(Sort::Var("BitVec".to_owned())),
+                                prior_pools,
+                            ),
                         )
                     } else {
                         Sort::BitVec(total_width.iter().fold(0, |acc, x| match x {
@@ -205,12 +232,15 @@ impl PrimitivePool {
                         }))
                     }
                 }
-                Operator::Ite => self.compute_sort(&args[1]).as_sort().unwrap().clone(),
+                Operator::Ite => self
+                    .compute_sort(&args[1], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                    .clone(),
                 Operator::Add | Operator::Sub | Operator::Mult | Operator::Abs => {
-                    if args
-                        .iter()
-                        .any(|a| self.compute_sort(a).as_sort().unwrap() == &Sort::Real)
-                    {
+                    if args.iter().any(|a| {
+                        self.compute_sort(a, prior_pools).as_sort().unwrap() == &Sort::Real
+                    }) {
                         Sort::Real
                     } else {
                         Sort::Int
@@ -218,18 +248,24 @@ impl PrimitivePool {
                 }
                 Operator::RealDiv | Operator::ToReal => Sort::Real,
                 Operator::IntDiv | Operator::Mod | Operator::ToInt => Sort::Int,
-                Operator::Select => match self.compute_sort(&args[0]).as_sort().unwrap() {
-                    Sort::Array(_, y) => y.as_sort().unwrap().clone(),
-                    Sort::ParamSort(v, head) => {
-                        if let Some(Sort::Var(_)) = head.as_sort() {
-                            v[1].as_sort().unwrap().clone()
-                        } else {
-                            unreachable!()
+                Operator::Select => {
+                    match self.compute_sort(&args[0], prior_pools).as_sort().unwrap() {
+                        Sort::Array(_, y) => y.as_sort().unwrap().clone(),
+                        Sort::ParamSort(v, head) => {
+                            if let Some(Sort::Var(_)) = head.as_sort() {
+                                v[1].as_sort().unwrap().clone()
+                            } else {
+                                unreachable!()
+                            }
                         }
+                        _ => unreachable!(),
                     }
-                    _ => unreachable!(),
-                },
-                Operator::Store => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
+                }
+                Operator::Store => self
+                    .compute_sort(&args[0], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                    .clone(),
                 Operator::StrLen | Operator::IndexOf | Operator::StrToCode | Operator::StrToInt => {
                     Sort::Int
                 }
@@ -260,7 +296,7 @@ impl PrimitivePool {
                 Operator::RareList => Sort::RareList,
             },
             Term::App(f, args) => {
-                match self.compute_sort(f).as_sort().unwrap() {
+                match self.compute_sort(f, prior_pools).as_sort().unwrap() {
                     Sort::Function(sorts) => sorts.last().unwrap().as_sort().unwrap().clone(),
                     Sort::ParamSort(_, p_sort) => {
                         let p_function_sort = p_sort.as_sort().unwrap();
@@ -269,23 +305,27 @@ impl PrimitivePool {
                             let mut map = IndexMap::new();
                             for i in 0..args.len() {
                                 let sort_i = sorts[i].as_sort().unwrap();
-                                let arg_sort_i =
-                                    self.compute_sort(&args[i]).as_sort().unwrap().clone();
+                                let arg_sort_i = self
+                                    .compute_sort(&args[i], prior_pools)
+                                    .as_sort()
+                                    .unwrap()
+                                    .clone();
                                 if !sort_i.match_with(&arg_sort_i, &mut map) {
                                     unreachable!();
                                 }
                             }
+                            let mut pool = PriorityPool { pool: self, prior_pools };
                             let substitution: IndexMap<_, _> = map
                                 .into_iter()
                                 .map(|(var_name, sort)| {
                                     let var = Term::Sort(Sort::Var(var_name));
                                     let sort_t = Term::Sort(sort);
-                                    (self.add(var), self.add(sort_t))
+                                    (pool.add(var), pool.add(sort_t))
                                 })
                                 .collect();
-                            Substitution::new(self, substitution)
+                            Substitution::new(&mut pool, substitution)
                                 .unwrap()
-                                .apply(self, sorts.last().unwrap())
+                                .apply(&mut pool, sorts.last().unwrap())
                                 .as_sort()
                                 .unwrap()
                                 .clone()
@@ -302,10 +342,14 @@ impl PrimitivePool {
             Term::Binder(Binder::Lambda, bindings, body) => {
                 let mut result: Vec<_> =
                     bindings.iter().map(|(_name, sort)| sort.clone()).collect();
-                result.push(self.compute_sort(body));
+                result.push(self.compute_sort(body, prior_pools));
                 Sort::Function(result)
             }
-            Term::Let(_, inner) => self.compute_sort(inner).as_sort().unwrap().clone(),
+            Term::Let(_, inner) => self
+                .compute_sort(inner, prior_pools)
+                .as_sort()
+                .unwrap()
+                .clone(),
             Term::ParamOp { op, op_args, args } => {
                 let sort = match op {
                     ParamOperator::BvExtract => {
@@ -315,20 +359,28 @@ impl PrimitivePool {
                     }
                     ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
                         let extension_width = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
+                        let Sort::BitVec(bv_width) = self
+                            .compute_sort(&args[0], prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
                         else {
                             unreachable!()
                         };
                         Sort::BitVec(extension_width + bv_width)
                     }
-                    ParamOperator::RotateLeft | ParamOperator::RotateRight => {
-                        self.compute_sort(&args[0]).as_sort().unwrap().clone()
-                    }
+                    ParamOperator::RotateLeft | ParamOperator::RotateRight => self
+                        .compute_sort(&args[0], prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone(),
                     ParamOperator::Repeat => {
                         let repetitions = op_args[0].as_integer().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
+                        let Sort::BitVec(bv_width) = self
+                            .compute_sort(&args[0], prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
                         else {
                             unreachable!()
                         };
@@ -350,7 +402,11 @@ impl PrimitivePool {
                 sort
             }
         };
-        let sort = self.storage.add(Term::Sort(result));
+        let sort = Term::Sort(result);
+        let sort = match prior_pools.iter().find_map(|p| p.storage.get(&sort)) {
+            Some(sort) => sort.clone(),
+            None => self.storage.add(sort),
+        };
         self.sorts_cache.insert(term.clone(), sort);
         self.sorts_cache[term].clone()
     }
@@ -366,7 +422,9 @@ impl PrimitivePool {
                 return entry.clone();
             }
         }
-        self.add(term)
+        let term = self.storage.add(term);
+        self.compute_sort(&term, prior_pools);
+        term
     }
 
     fn sort_with_priorities<const N: usize>(
@@ -455,9 +513,7 @@ impl PrimitivePool {
 
 impl TermPool for PrimitivePool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        let term = self.storage.add(term);
-        self.compute_sort(&term);
-        term
+        self.add_with_priorities(term, [])
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
@@ -468,3 +524,27 @@ impl TermPool for PrimitivePool {
         self.free_vars_with_priorities(term, [])
     }
 }
+
+/// A view of a pool that falls back to it only for the terms that are not in any of the prior pools.
+struct PriorityPool<'a, const N: usize> {
+    pool: &'a mut PrimitivePool,
+    prior_pools: [&'a PrimitivePool; N],
+}
+
+impl<const N: usize> TermPool for PriorityPool<'_, N> {
+    fn add(&mut self, term: Term) -> Rc<Term> {
+        self.pool.add_with_priorities(term, self.prior_pools)
+    }
+
+    fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
+        self.prior_pools
+            .iter()
+            .find_map(|p| p.sorts_cache.get(term))
+            .unwrap_or_else(|| &self.pool.sorts_cache[term])
+            .clone()
+    }
+
+    fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
+        self.pool.free_vars_with_priorities(term, self.prior_pools)
+    }
+}
-- 
2.43.0


From 653f9b9d90e2386d4fa80f12c66b8093392c8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 51/98] fix: print constant arrays as qualified, not indexed,
 terms

---
 carcara/src/ast/printer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ba79f0d..b4b101e 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -358,7 +358,12 @@ impl<'a> AlethePrinter<'a> {
                 if !args.is_empty() {
                     write!(self.inner, "(")?;
                 }
-                write!(self.inner, "(_ {}", op)?;
+                // `const` is qualified with a sort, while all other operators have indices
+                let keyword = match op {
+                    ParamOperator::ArrayConst => "as",
+                    _ => "_",
+                };
+                write!(self.inner, "({} {}", keyword, op)?;
                 self.write_s_expr_tail(op_args)?;
                 if !args.is_empty() {
                     self.write_s_expr_tail(args)?;
-- 
2.43.0


From d0fb091b66f44d34faeaaddfb3d3d347b97821dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 52/98] fix: escape backslashes that would start an escape
 sequence when printing strings

---
 carcara/src/ast/printer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index b4b101e..d0282f7 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -464,8 +464,13 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 }
 
 fn escape_string(string: &str) -> Cow<'_, str> {
-    if string.contains('"') {
-        Cow::Owned(string.replace('"', "\"\""))
+    // A backslash only needs to be escaped if it would be read as the start of an escape sequence
+    if string.contains('"') || string.contains("\\u") {
+        Cow::Owned(
+            string
+                .replace('"', "\"\"")
+                .replace("\\u", "\\u{5c}u"),
+        )
     } else {
         Cow::Borrowed(string)
     }
-- 
2.43.0


From 7a59ed4be7a26079ab6738f46a6d8a1cdab1ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 53/98] fix: quote every symbol that would not be read back as
 itself

---
 carcara/src/ast/printer.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index d0282f7..977399b 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     ast::*,
-    parser::Token,
+    parser::{Reserved, Token},
     utils::{is_symbol_character, DedupIterator},
 };
 use indexmap::IndexMap;
@@ -10,6 +10,7 @@ use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
     fmt, io,
+    str::FromStr,
     sync::atomic::{AtomicBool, Ordering},
 };
 
@@ -382,7 +383,12 @@ impl<'a> AlethePrinter<'a> {
         }
         write!(self.inner, ")")?;
 
-        write!(self.inner, " :rule {}", step.rule)?;
+        // Reserved words can be used as rule names, without being quoted
+        let rule = match step.rule.parse::<Reserved>() {
+            Ok(_) => Cow::Borrowed(step.rule.as_str()),
+            Err(_) => quote_symbol(&step.rule),
+        };
+        write!(self.inner, " :rule {}", rule)?;
 
         if let [head, tail @ ..] = step.premises.as_slice() {
             let id = iter.get_premise(*head).id();
@@ -406,7 +412,7 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.discharge.as_slice() {
             let id = iter.get_premise(*head).id();
-            write!(self.inner, " :discharge ({}", id)?;
+            write!(self.inner, " :discharge ({}", quote_symbol(id))?;
             for discharge in tail {
                 let id = iter.get_premise(*discharge).id();
                 write!(self.inner, " {}", quote_symbol(id))?;
@@ -441,19 +447,17 @@ where
 }
 
 fn quote_symbol(symbol: &str) -> Cow<'_, str> {
-    use crate::parser::Reserved;
-    use std::str::FromStr;
-
     assert!(symbol.chars().all(|c| c != '|'));
 
     // Any symbol that:
     // - is an empty string,
-    // - starts with a digit,
+    // - starts with a digit, or with a '-' followed by a digit,
     // - is a reserved word, or
     // - contains non-symbol characters
     // must be quoted
+    let unsigned = symbol.strip_prefix('-').unwrap_or(symbol);
     if symbol.is_empty()
-        || symbol.chars().next().unwrap().is_ascii_digit()
+        || unsigned.starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
         || symbol.chars().any(|c| !is_symbol_character(c))
     {
@@ -596,7 +600,8 @@ impl fmt::Display for Token {
 
 impl fmt::Display for ProblemPrelude {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        writeln!(f, "(set-logic {})", self.logic.as_deref().unwrap_or("ALL"))?;
+        let logic = self.logic.as_deref().unwrap_or("ALL");
+        writeln!(f, "(set-logic {})", quote_symbol(logic))?;
 
         for (name, arity) in &self.sort_declarations {
             writeln!(f, "(declare-sort {} {})", quote_symbol(name), arity)?;
-- 
2.43.0


From ed2de66bdef416b30bb3d37a923bff8d8e1820ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 54/98] fix: print empty clauses in step arguments with
 parentheses

---
 carcara/src/ast/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 977399b..d63dc15 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -334,7 +334,7 @@ impl<'a> AlethePrinter<'a> {
             Term::Var(name, _) => write!(self.inner, "{}", quote_symbol(name)),
             Term::App(func, args) => self.write_s_expr(func, args),
             Term::Op(op, args) => {
-                if args.is_empty() {
+                if args.is_empty() && *op != Operator::Cl {
                     write!(self.inner, "{}", op)
                 } else {
                     self.write_s_expr(op, args)
-- 
2.43.0


From d3a68a2dccd17b3350ec145c312cff072d6b3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 55/98] fix: print decimal constants of problems as decimals,
 not divisions

---
 carcara/src/ast/printer.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index d63dc15..1bd777a 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -6,6 +6,7 @@ use crate::{
     utils::{is_symbol_character, DedupIterator},
 };
 use indexmap::IndexMap;
+use rug::{ops::Pow, Integer, Rational};
 use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
@@ -312,6 +313,8 @@ impl<'a> AlethePrinter<'a> {
                         }
                         if r.is_integer() {
                             write!(self.inner, "{}.0", r.clone().abs())?;
+                        } else if let Some(decimal) = as_decimal(&r.clone().abs()) {
+                            write!(self.inner, "{}", decimal)?;
                         } else {
                             write!(
                                 self.inner,
@@ -467,6 +470,21 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     }
 }
 
+/// Writes a non-negative rational in decimal notation, if it has a finite decimal representation.
+fn as_decimal(r: &Rational) -> Option<String> {
+    let [two, five] = [2u32, 5].map(Integer::from);
+    let (denom, twos) = r.denom().clone().remove_factor(&two);
+    let (denom, fives) = denom.remove_factor(&five);
+    if denom != 1 {
+        return None;
+    }
+    let num_digits = std::cmp::max(twos, fives);
+    let scaled = Rational::from(r * Integer::from(10u32).pow(num_digits)).into_numer_denom().0;
+    let digits = format!("{:0>width$}", scaled.to_string(), width = num_digits as usize + 1);
+    let (whole, fraction) = digits.split_at(digits.len() - num_digits as usize);
+    Some(format!("{}.{}", whole, fraction))
+}
+
 fn escape_string(string: &str) -> Cow<'_, str> {
     // A backslash only needs to be escaped if it would be read as the start of an escape sequence
     if string.contains('"') || string.contains("\\u") {
-- 
2.43.0


From 1a68cbaa510d154adfba878536e7f57d461228e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 56/98] fix: allow names of functions to be applied

---
 carcara/src/parser/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 04f6fd8..d6a898b 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1817,8 +1817,15 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 let args = self.parse_sequence(Self::parse_term, true)?;
                 let func = self.state.function_defs.get(&func_name).unwrap();
 
-                func.apply(self.pool, args)
-                    .map_err(|err| Error::Parser(err, head_pos))
+                // If the definition takes no parameters, the name stands for a term, that may itself
+                // be a function
+                if func.params.is_empty() {
+                    let body = func.body.clone();
+                    self.make_app(body, args)
+                } else {
+                    func.apply(self.pool, args)
+                }
+                .map_err(|err| Error::Parser(err, head_pos))
             }
             Token::OpenParen => {
                 self.next_token()?;
-- 
2.43.0


From aea86af687b533634ebc2a8f2e7c70fc8affc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 57/98] fix: declare functions in the prelude when their
 definitions become premises

---
 carcara/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index d6a898b..41d94ea 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -788,6 +788,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         let sort = self.pool.sort(&lambda_term);
                         let var = (name, sort);
                         self.insert_sorted_var(var.clone());
+                        self.prelude().function_declarations.push(var.clone());
                         let var_term = self.pool.add(var.into());
                         let assertion_term = self
                             .pool
@@ -1277,7 +1278,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 Sort::Function(param_sorts)
             };
             let sort = self.pool.add(Term::Sort(sort));
-            self.insert_sorted_var((name.clone(), sort));
+            self.insert_sorted_var((name.clone(), sort.clone()));
+            self.prelude().function_declarations.push((name.clone(), sort));
         }
 
         if is_multiple {
-- 
2.43.0


From fc9007e32cbc6b7b029abb84e059fbd633feeceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 58/98] fix: do not move definitions out of the subproof they
 appear in

---
 carcara/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 41d94ea..2012e37 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -905,7 +905,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 }
                 Token::ReservedWord(Reserved::DefineFun) => {
                     let (name, func_def) = self.parse_define_fun()?;
-                    if func_def.params.is_empty() {
+                    // Definitions inside a subproof may use its variables, so they can not be printed
+                    // at the start of the proof
+                    if func_def.params.is_empty() && stack.len() == 1 {
                         constant_definitions.push((name.clone(), func_def.body.clone()));
                     }
                     self.state.function_defs.insert(name, func_def);
-- 
2.43.0


From 3e8be77018911d41641d36cb1e678ae0f40ee262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 59/98] fix: avoid names that are in use, or whose meaning
 differs, when abbreviating terms

---
 carcara/src/ast/printer.rs | 199 ++++++++++++++++++++++++++++++++++---
 1 file changed, 184 insertions(+), 15 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 1bd777a..7336eb9 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -79,6 +79,10 @@ pub fn write_asserts(
     // cannot use the GMP notation
     printer.smt_lib_strict = true;
 
+    let mut visited = HashSet::new();
+    for assertion in asserts {
+        collect_symbols(assertion, &mut visited, &mut printer.used_symbols);
+    }
     for assertion in asserts {
         write!(printer.inner, "(assert ")?;
         assertion.print_with_sharing(&mut printer)?;
@@ -103,10 +107,11 @@ impl<T: PrintWithSharing> PrintWithSharing for &T {
 
 impl PrintWithSharing for Rc<Term> {
     fn print_with_sharing(&self, p: &mut AlethePrinter) -> io::Result<()> {
-        if let Some(name) = p.defined_constants.get(self) {
+        if p.defined_constants.contains_key(self) && p.is_independent_of_scope(self) {
+            let name = &p.defined_constants[self];
             return write!(p.inner, "{}", quote_symbol(name));
         }
-        if let Some(indices) = &mut p.term_indices {
+        if p.term_indices.is_some() {
             // There are a few cases where we don't use sharing when printing a term:
             let cannot_use_sharing =
                 // - Terminal terms (i.e., constants or variables) could in theory be shared,
@@ -124,14 +129,18 @@ impl PrintWithSharing for Rc<Term> {
                 || Rc::strong_count(self) <= 3
                 // - Terms which are not closed, that is, terms which have free variables besides
                 // the global variables, cannot be shared
-                || !self.is_closed(p.pool, &p.global_vars);
+                || !self.is_closed(p.pool, &p.global_vars)
+                // - If a variable bound around the term has the same name and sort as a global
+                // variable in it, the term is not the same as the one we would be naming
+                || !p.is_independent_of_scope(self);
 
             if !cannot_use_sharing {
-                return if let Some(i) = indices.get(self) {
+                let index = p.term_indices.as_ref().unwrap().get(self).copied();
+                return if let Some(i) = index {
                     write!(p.inner, "{}{}", p.term_sharing_variable_prefix, i)
                 } else {
-                    let i = indices.len();
-                    indices.insert(self.clone(), i);
+                    let i = p.new_term_index();
+                    p.term_indices.as_mut().unwrap().insert(self.clone(), i);
                     write!(p.inner, "(! ")?;
                     p.write_raw_term(self)?;
                     write!(p.inner, " :named {}{})", p.term_sharing_variable_prefix, i)
@@ -186,23 +195,48 @@ struct AlethePrinter<'a> {
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
     smt_lib_strict: bool,
+
+    /// The symbols that can't be used to name shared terms, as they already have some other meaning
+    used_symbols: HashSet<String>,
+
+    /// The names of the variables bound around the term being printed
+    bound_names: Vec<String>,
+    next_term_index: usize,
 }
 
 impl PrintProof for AlethePrinter<'_> {
     fn write_proof(&mut self, proof: &Proof) -> io::Result<()> {
-        for (name, value) in &proof.constant_definitions {
+        let mut symbols = HashSet::new();
+        let mut visited = HashSet::new();
+        for (_, value) in &proof.constant_definitions {
+            collect_symbols(value, &mut visited, &mut symbols);
+        }
+        collect_symbols_of_commands(&proof.commands, &mut visited, &mut symbols);
+
+        // All definitions are printed before the proof commands, so we can't keep the definitions of
+        // names that are also used as variables, or that are later redefined
+        let definitions: IndexMap<_, _> = proof
+            .constant_definitions
+            .iter()
+            .filter(|(name, _)| !symbols.contains(name))
+            .map(|(name, value)| (name, value))
+            .collect();
+        self.used_symbols.extend(symbols);
+        self.used_symbols
+            .extend(definitions.keys().map(|name| (*name).clone()));
+
+        for (name, value) in &definitions {
             write!(self.inner, "(define-fun {} () ", quote_symbol(name))?;
             self.pool.sort(value).print_with_sharing(self)?;
             write!(self.inner, " ")?;
             value.print_with_sharing(self)?;
             writeln!(self.inner, ")")?;
         }
-        self.defined_constants = proof
-            .constant_definitions
-            .iter()
-            .cloned()
-            .map(|(name, term)| (term, name))
+        self.defined_constants = definitions
+            .into_iter()
+            .map(|(name, term)| (term.clone(), name.clone()))
             .collect();
+        let mut outer_scopes = Vec::new();
         let mut iter = proof.iter();
         while let Some(command) = iter.next() {
             match command {
@@ -211,9 +245,15 @@ impl PrintProof for AlethePrinter<'_> {
                     term.print_with_sharing(self)?;
                     write!(self.inner, ")")?;
                 }
-                ProofCommand::Step(s) => self.write_step(&mut iter, s)?,
+                ProofCommand::Step(s) => {
+                    self.write_step(&mut iter, s)?;
+                    if iter.is_end_step() {
+                        self.bound_names.truncate(outer_scopes.pop().unwrap());
+                    }
+                }
                 ProofCommand::Subproof(s) => {
                     write!(self.inner, "(anchor :step {}", quote_symbol(command.id()))?;
+                    outer_scopes.push(self.bound_names.len());
 
                     if !s.args.is_empty() {
                         write!(self.inner, " :args (")?;
@@ -229,6 +269,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, "({} ", quote_symbol(name))?;
                                     sort.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bound_names.push(name.clone());
                                 }
                                 AnchorArg::Assign(var, value) => {
                                     write!(self.inner, "(:= ")?;
@@ -236,6 +277,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, " ")?;
                                     value.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bound_names.push(var.0.clone());
                                 }
                             }
                         }
@@ -248,6 +290,7 @@ impl PrintProof for AlethePrinter<'_> {
             writeln!(self.inner)?;
         }
         self.defined_constants.clear();
+        self.used_symbols.clear();
         Ok(())
     }
 }
@@ -268,6 +311,11 @@ impl<'a> AlethePrinter<'a> {
         } else {
             HashSet::new()
         };
+        let used_symbols = prelude
+            .function_declarations
+            .iter()
+            .map(|(name, _)| name.clone())
+            .collect();
         Self {
             pool,
             inner: dest,
@@ -276,6 +324,34 @@ impl<'a> AlethePrinter<'a> {
             global_vars: global_variables,
             defined_constants: HashMap::new(),
             smt_lib_strict: false,
+            used_symbols,
+            bound_names: Vec::new(),
+            next_term_index: 0,
+        }
+    }
+
+    /// Returns the index of the next name for a shared term, skipping the names that are in use.
+    fn new_term_index(&mut self) -> usize {
+        loop {
+            let i = self.next_term_index;
+            self.next_term_index += 1;
+            let name = format!("{}{}", self.term_sharing_variable_prefix, i);
+            if !self.used_symbols.contains(&name) {
+                return i;
+            }
+        }
+    }
+
+    /// Returns `true` if none of the free variables of the term are bound around the point being
+    /// printed. If that is not the case, using a name that was given to the term outside of these
+    /// binders would change its meaning.
+    fn is_independent_of_scope(&mut self, term: &Rc<Term>) -> bool {
+        self.bound_names.is_empty() || {
+            let free_vars = self.pool.free_vars(term);
+            !free_vars
+                .iter()
+                .filter_map(|x| x.as_var())
+                .any(|name| self.bound_names.iter().any(|bound| bound == name))
         }
     }
 
@@ -297,6 +373,16 @@ impl<'a> AlethePrinter<'a> {
         write!(self.inner, ")")
     }
 
+    /// Writes a term under the given bindings.
+    fn write_in_scope(&mut self, bindings: &BindingList, term: &Rc<Term>) -> io::Result<()> {
+        let outer_scope = self.bound_names.len();
+        self.bound_names
+            .extend(bindings.iter().map(|(name, _)| name.clone()));
+        term.print_with_sharing(self)?;
+        self.bound_names.truncate(outer_scope);
+        Ok(())
+    }
+
     fn write_raw_term(&mut self, term: &Term) -> io::Result<()> {
         match term {
             Term::Const(c) => {
@@ -348,14 +434,14 @@ impl<'a> AlethePrinter<'a> {
                 write!(self.inner, "({} ", binder)?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.write_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::Let(bindings, term) => {
                 write!(self.inner, "(let ")?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.write_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::ParamOp { op, op_args, args } => {
@@ -428,6 +514,10 @@ impl<'a> AlethePrinter<'a> {
     }
 
     fn write_lia_smt_instance(&mut self, clause: &[Rc<Term>]) -> io::Result<()> {
+        let mut visited = HashSet::new();
+        for term in clause {
+            collect_symbols(term, &mut visited, &mut self.used_symbols);
+        }
         for term in clause.iter().dedup() {
             write!(self.inner, "(assert (not ")?;
             term.print_with_sharing(self)?;
@@ -470,6 +560,79 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     }
 }
 
+/// Adds to `symbols` the names of all variables that appear in the given term, free or bound.
+fn collect_symbols<'a>(
+    term: &'a Term,
+    visited: &mut HashSet<*const Term>,
+    symbols: &mut HashSet<String>,
+) {
+    fn add_names(bindings: &BindingList, symbols: &mut HashSet<String>) {
+        symbols.extend(bindings.iter().map(|(name, _)| name.clone()));
+    }
+
+    let mut todo: Vec<&'a Term> = vec![term];
+    while let Some(term) = todo.pop() {
+        if !visited.insert(std::ptr::from_ref(term)) {
+            continue;
+        }
+        match term {
+            Term::Const(_) | Term::Sort(_) => (),
+            Term::Var(name, _) => {
+                symbols.insert(name.clone());
+            }
+            Term::App(func, args) => {
+                todo.push(func);
+                todo.extend(args.iter().map(Rc::as_ref));
+            }
+            Term::Op(_, args) | Term::ParamOp { args, .. } => {
+                todo.extend(args.iter().map(Rc::as_ref));
+            }
+            Term::Binder(_, bindings, inner) => {
+                add_names(bindings, symbols);
+                todo.push(inner);
+            }
+            Term::Let(bindings, inner) => {
+                add_names(bindings, symbols);
+                todo.extend(bindings.iter().map(|(_, value)| value.as_ref()));
+                todo.push(inner);
+            }
+        }
+    }
+}
+
+/// Adds to `symbols` the names of all variables that appear in the given commands, free or bound.
+fn collect_symbols_of_commands<'a>(
+    commands: &'a [ProofCommand],
+    visited: &mut HashSet<*const Term>,
+    symbols: &mut HashSet<String>,
+) {
+    let mut todo: Vec<&'a ProofCommand> = commands.iter().collect();
+    while let Some(command) = todo.pop() {
+        match command {
+            ProofCommand::Assume { term, .. } => collect_symbols(term, visited, symbols),
+            ProofCommand::Step(step) => {
+                for term in step.clause.iter().chain(&step.args) {
+                    collect_symbols(term, visited, symbols);
+                }
+            }
+            ProofCommand::Subproof(subproof) => {
+                for arg in &subproof.args {
+                    match arg {
+                        AnchorArg::Variable((name, _)) => {
+                            symbols.insert(name.clone());
+                        }
+                        AnchorArg::Assign((name, _), value) => {
+                            symbols.insert(name.clone());
+                            collect_symbols(value, visited, symbols);
+                        }
+                    }
+                }
+                todo.extend(&subproof.commands);
+            }
+        }
+    }
+}
+
 /// Writes a non-negative rational in decimal notation, if it has a finite decimal representation.
 fn as_decimal(r: &Rational) -> Option<String> {
     let [two, five] = [2u32, 5].map(Integer::from);
@@ -514,7 +677,13 @@ impl fmt::Display for Term {
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
             smt_lib_strict: false,
+            used_symbols: HashSet::new(),
+            bound_names: Vec::new(),
+            next_term_index: 0,
         };
+        if use_sharing {
+            collect_symbols(self, &mut HashSet::new(), &mut printer.used_symbols);
+        }
         printer.write_raw_term(self).unwrap();
         let result = std::str::from_utf8(&buf).unwrap();
         write!(f, "{}", result)
-- 
2.43.0


From 1b0515b50049f5fb358ef30b08fd4a235b25e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 60/98] fix: do not introduce names of shared terms in
 arguments that may be skipped

---
 carcara/src/ast/printer.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 7336eb9..68e2f4d 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -491,11 +491,21 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.args.as_slice() {
             write!(self.inner, " :args (")?;
+            // The arguments of `hole` steps may be skipped when parsing, so they can't introduce the
+            // names of shared terms
+            let term_indices = if step.rule == "hole" {
+                self.term_indices.take()
+            } else {
+                None
+            };
             head.print_with_sharing(self)?;
             for arg in tail {
                 write!(self.inner, " ")?;
                 arg.print_with_sharing(self)?;
             }
+            if term_indices.is_some() {
+                self.term_indices = term_indices;
+            }
             write!(self.inner, ")")?;
         }
 
@@ -642,8 +652,14 @@ fn as_decimal(r: &Rational) -> Option<String> {
         return None;
     }
     let num_digits = std::cmp::max(twos, fives);
-    let scaled = Rational::from(r * Integer::from(10u32).pow(num_digits)).into_numer_denom().0;
-    let digits = format!("{:0>width$}", scaled.to_string(), width = num_digits as usize + 1);
+    let scaled = Rational::from(r * Integer::from(10u32).pow(num_digits))
+        .into_numer_denom()
+        .0;
+    let digits = format!(
+        "{:0>width$}",
+        scaled.to_string(),
+        width = num_digits as usize + 1
+    );
     let (whole, fraction) = digits.split_at(digits.len() - num_digits as usize);
     Some(format!("{}.{}", whole, fraction))
 }
@@ -651,11 +667,7 @@ fn as_decimal(r: &Rational) -> Option<String> {
 fn escape_string(string: &str) -> Cow<'_, str> {
     // A backslash only needs to be escaped if it would be read as the start of an escape sequence
     if string.contains('"') || string.contains("\\u") {
-        Cow::Owned(
-            string
-                .replace('"', "\"\"")
-                .replace("\\u", "\\u{5c}u"),
-        )
+        Cow::Owned(string.replace('"', "\"\"").replace("\\u", "\\u{5c}u"))
     } else {
         Cow::Borrowed(string)
     }
-- 
2.43.0


From f1019ca4811d40ad42b246c8e6b58574bdac826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 61/98] fix: bound variables shadow definitions, and are not
 captured when definitions are expanded

---
 carcara/src/parser/error.rs |  5 +++
 carcara/src/parser/mod.rs   | 69 ++++++++++++++++++++++++++++++++-----
 carcara/src/utils.rs        | 18 ++++++++++
 3 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 273604a..3364315 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -81,6 +81,11 @@ pub enum ParserError {
     #[error("identifier '{0}' is not defined")]
     UndefinedIden(String),
 
+    /// The body of a function definition contains a symbol that is the name of a variable bound
+    /// around the place where the function is used.
+    #[error("symbol '{0}' in definition of '{1}' would be captured by bound variable")]
+    CapturedByBinder(String, String),
+
     /// The parser encountered a sort that was not defined.
     #[error("sort '{0}' is not defined")]
     UndefinedSort(String),
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 2012e37..6456d76 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -101,9 +101,13 @@ pub fn parse_instance_with_pool<T: BufRead>(
 }
 
 /// A function definition, from a `define-fun` command.
+#[derive(Clone)]
 struct FunctionDef {
     params: Vec<SortedVar>,
     body: Rc<Term>,
+    /// How many scopes of the symbol table were open when the function was defined. Variables that
+    /// are bound in scopes opened after that are not the ones that the body refers to.
+    depth: usize,
 }
 
 impl FunctionDef {
@@ -234,6 +238,44 @@ impl<'a, R: BufRead> Parser<'a, R> {
         &mut self.problem.as_mut().unwrap().premises
     }
 
+    /// Returns the definition of `name`, unless it is currently the name of a bound variable.
+    fn get_function_def(&self, name: &str) -> Option<FunctionDef> {
+        let func = self.state.function_defs.get(name)?;
+        let cached = HashCache::new(name.to_owned());
+        match self.state.symbol_table.get_with_depth(&cached) {
+            Some((depth, _)) if depth > 0 => None,
+            _ => Some(func.clone()),
+        }
+    }
+
+    /// Applies a function definition to arguments. Fails if a variable that is bound around the
+    /// application would capture a symbol in the body of the function.
+    fn apply_function_def(
+        &mut self,
+        name: &str,
+        func: &FunctionDef,
+        args: Vec<Rc<Term>>,
+    ) -> Result<Rc<Term>, ParserError> {
+        let table = &self.state.symbol_table;
+        let shadowing: Vec<SortedVar> = table
+            .scopes_from(func.depth)
+            .flatten()
+            .filter(|(var, sort)| table.get_up_to(func.depth, *var) == Some(*sort))
+            .map(|(var, sort)| (var.as_ref().clone(), sort.clone()))
+            .collect();
+        if !shadowing.is_empty() {
+            let free_vars = self.pool.free_vars(&func.body);
+            for (var, sort) in shadowing {
+                let is_param = func.params.iter().any(|p| p.0 == var && p.1 == sort);
+                let term = self.pool.add(Term::new_var(var.clone(), sort));
+                if !is_param && free_vars.contains(&term) {
+                    return Err(ParserError::CapturedByBinder(var, name.to_owned()));
+                }
+            }
+        }
+        func.apply(self.pool, args)
+    }
+
     /// Constructs and sort checks a variable term.
     fn make_var(&mut self, iden: String) -> Result<Rc<Term>, ParserError> {
         let cached = HashCache::new(iden);
@@ -1229,7 +1271,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
         self.expect_token(Token::CloseParen)?;
 
-        Ok((name, FunctionDef { params, body }))
+        let depth = self.state.symbol_table.height();
+        Ok((name, FunctionDef { params, body, depth }))
     }
 
     /// Adds the premise corresponding to a `define-fun-rec` function definition.
@@ -1352,8 +1395,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             (Token::String(s), _) => Term::new_string(s),
             (Token::Symbol(s), pos) => {
                 // Check to see if there is a nullary function defined with this name
-                return if let Some(func) = self.state.function_defs.get(&s) {
-                    func.apply(self.pool, Vec::new())
+                return if let Some(func) = self.get_function_def(&s) {
+                    self.apply_function_def(&s, &func, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
                     let args = Vec::new();
@@ -1486,9 +1529,19 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         // If the term has a `:named` attribute, we introduce a new nullary function
                         // definition that maps the name to the term
                         let name = p.expect_symbol()?;
+
+                        // In proofs, named terms are used as abbreviations of terms that contain
+                        // bound variables, so a name simply stands for the text of the term
+                        let height = p.state.symbol_table.height();
+                        let depth = if p.problem.is_some() && height == 1 {
+                            height
+                        } else {
+                            usize::MAX
+                        };
                         let func_def = FunctionDef {
                             params: Vec::new(),
                             body: inner.clone(),
+                            depth,
                         };
                         p.state.function_defs.insert(name, func_def);
                         Ok(())
@@ -1815,19 +1868,19 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
                 Ok(result)
             }
-            Token::Symbol(s) if self.state.function_defs.get(s).is_some() => {
+            Token::Symbol(s) if self.get_function_def(s).is_some() => {
                 let head_pos = self.current_position;
                 let func_name = self.expect_symbol()?;
                 let args = self.parse_sequence(Self::parse_term, true)?;
-                let func = self.state.function_defs.get(&func_name).unwrap();
+                let func = self.get_function_def(&func_name).unwrap();
 
                 // If the definition takes no parameters, the name stands for a term, that may itself
                 // be a function
                 if func.params.is_empty() {
-                    let body = func.body.clone();
-                    self.make_app(body, args)
+                    self.apply_function_def(&func_name, &func, Vec::new())
+                        .and_then(|body| self.make_app(body, args))
                 } else {
-                    func.apply(self.pool, args)
+                    self.apply_function_def(&func_name, &func, args)
                 }
                 .map_err(|err| Error::Parser(err, head_pos))
             }
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 14c766f..9f7d889 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -162,6 +162,24 @@ impl<K: Eq + Hash, V> HashMapStack<K, V> {
             .find_map(|(depth, scope)| scope.get(key).map(|v| (depth, v)))
     }
 
+    /// Same as `get`, but only looks in the `height` outermost scopes.
+    pub fn get_up_to<Q>(&self, height: usize, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+        Q: Eq + Hash + ?Sized,
+    {
+        let height = height.min(self.scopes.len());
+        self.scopes[..height]
+            .iter()
+            .rev()
+            .find_map(|scope| scope.get(key))
+    }
+
+    /// Iterates over all scopes, except the `height` outermost ones.
+    pub fn scopes_from(&self, height: usize) -> impl Iterator<Item = &IndexMap<K, V>> {
+        self.scopes.iter().skip(height)
+    }
+
     pub fn insert(&mut self, key: K, value: V) {
         self.scopes.last_mut().unwrap().insert(key, value);
     }
-- 
2.43.0


From df58f7199e425e699e48c97dd89a2b3262ae8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 62/98] fix: read indices as integers in logics that only have
 reals

---
 carcara/src/parser/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6456d76..7603b1f 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1415,6 +1415,17 @@ impl<'a, R: BufRead> Parser<'a, R> {
         Ok(self.pool.add(term))
     }
 
+    /// Parses an index of an indexed operator or sort. Unlike other numerals, these are always
+    /// integers, even in a logic without them.
+    fn parse_index(&mut self) -> CarcaraResult<Rc<Term>> {
+        if let Token::Numeral(n) = &self.current_token {
+            let term = Term::new_int(n.clone());
+            self.next_token()?;
+            return Ok(self.pool.add(term));
+        }
+        self.parse_term()
+    }
+
     pub fn parse_constant(&mut self) -> CarcaraResult<Constant> {
         let constant = match self.next_token()? {
             (Token::Bitvector { value, width }, _) => Constant::BitVec(value, width),
@@ -1581,7 +1592,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     self.current_position,
                 ));
             };
-            let args = self.parse_sequence(Self::parse_term, true)?;
+            let args = self.parse_sequence(Self::parse_index, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
                 if let Some(i) = arg.as_signed_integer() {
@@ -1605,7 +1616,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 self.current_position,
             )
         })?;
-        let args = self.parse_sequence(Self::parse_term, true)?;
+        let args = self.parse_sequence(Self::parse_index, true)?;
         let mut constant_args = Vec::new();
         for arg in args {
             if let Some(i) = arg.as_signed_integer() {
@@ -2012,7 +2023,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
             Token::OpenParen if self.current_token == Token::ReservedWord(Reserved::Underscore) => {
                 self.next_token()?;
                 let name = self.expect_symbol()?;
-                let args = self.parse_sequence(Self::parse_term, true)?;
+                let args = self.parse_sequence(Self::parse_index, true)?;
                 return self
                     .make_indexed_sort(name, args)
                     .map_err(|e| Error::Parser(e, pos));
-- 
2.43.0


From b934d6ffbf90b2f4bf4e53f33d39587d777f5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 63/98] fix: find resolution pivots by replaying them, and fall
 back to unit propagation when elaborating

---
 carcara/src/elaborator/resolution.rs | 350 +++++++++++++++++++++++++--
 1 file changed, 325 insertions(+), 25 deletions(-)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index bccf76f..5d5f881 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -1,5 +1,10 @@
 use super::*;
-use crate::{ast::*, checker::error::CheckerError, resolution::*, utils::DedupIterator};
+use crate::{
+    ast::*,
+    checker::error::CheckerError,
+    resolution::*,
+    utils::{DedupIterator, MultiSet},
+};
 
 pub fn resolution(
     pool: &mut PrimitivePool,
@@ -26,7 +31,7 @@ pub fn resolution(
                 }));
 
                 return Ok(Rc::new(ProofNode::Step(StepNode {
-                    id: ids.next_id(),
+                    id: step.id.clone(),
                     depth: step.depth,
                     clause: Vec::new(),
                     rule: "resolution".to_owned(),
@@ -38,28 +43,21 @@ pub fn resolution(
         }
     }
 
-    // In some cases, due to a bug in veriT, a resolution step will conclude the empty clause, and
-    // will have multiple premises, of which one has an empty clause as its conclusion. The checker
-    // can already deal with this case safely, but not the elaborator, so if we detect it we skip
-    // elaborating this step. Either way, since this step has a premise which concludes the empty
-    // clause, it is not actually necessary, and will be pruned during post-processing.
-    if step.clause.is_empty() {
-        for p in &step.premises {
-            if p.clause().is_empty() {
-                return Ok(Rc::new(ProofNode::Step(step.clone())));
-            }
-        }
-    }
-
     let mut premises: Vec<_> = step.premises.iter().dedup().cloned().collect();
-    let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
-
-    let ResolutionTrace { not_not_added, pivot_trace } =
-        greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
-            premises.reverse();
-            let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
-            greedy_resolution(&step.clause, &premise_clauses, pool, true)
-        })?;
+    let mut found = find_trace(pool, &step.clause, &premises);
+    if found.is_none() {
+        premises.reverse();
+        found = find_trace(pool, &step.clause, &premises);
+    }
+    let Some(ResolutionTrace { not_not_added, pivot_trace }) = found else {
+        // If the greedy algorithm does not find a sequence of pivots, we look for a derivation of the
+        // conclusion by unit propagation
+        if let Some(derived) = rup_derivation(pool, &mut ids, step) {
+            return Ok(derived);
+        }
+        log::warn!("could not find pivots for resolution step '{}'", step.id);
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    };
 
     let pivots = pivot_trace
         .into_iter()
@@ -96,7 +94,6 @@ pub fn resolution(
         //     :args (c true (not (not (not (not c)))) true))
         // ```
 
-        assert!(resolution_step.clause.len() == 1);
         let original_conclusion = resolution_step.clause;
         let double_not_c = original_conclusion[0].clone();
         let single_not_c = double_not_c.remove_negation().unwrap().clone();
@@ -105,6 +102,7 @@ pub fn resolution(
         let quintuple_not_c = build_term!(pool, (not {quadruple_not_c.clone()}));
 
         // First, we change the conclusion of the resolution step
+        resolution_step.id = ids.next_id();
         resolution_step.clause = vec![c.clone()];
         let resolution_step = Rc::new(ProofNode::Step(resolution_step));
 
@@ -132,7 +130,7 @@ pub fn resolution(
             .collect();
 
         Ok(Rc::new(ProofNode::Step(StepNode {
-            id: ids.next_id(),
+            id: step.id.clone(),
             depth: step.depth,
             clause: vec![double_not_c],
             rule: "resolution".to_owned(),
@@ -144,3 +142,305 @@ pub fn resolution(
         Ok(Rc::new(ProofNode::Step(resolution_step)))
     }
 }
+
+/// Finds the pivots of a resolution step using the greedy algorithm, and makes sure that resolving
+/// the premises in order with these pivots gives exactly the conclusion.
+fn find_trace(
+    pool: &mut PrimitivePool,
+    conclusion: &[Rc<Term>],
+    premises: &[Rc<ProofNode>],
+) -> Option<ResolutionTrace> {
+    let clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
+    let trace = greedy_resolution(conclusion, &clauses, pool, true).ok()?;
+    if premises.len() < 2 || trace.pivot_trace.len() != premises.len() - 1 {
+        return None;
+    }
+
+    let mut expected: IndexSet<Literal> = conclusion.iter().map(Rc::remove_all_negations).collect();
+    if trace.not_not_added {
+        let [(n, term)] = expected.iter().copied().collect::<Vec<_>>()[..] else {
+            return None;
+        };
+        if n < 2 || conclusion.len() != 1 {
+            return None;
+        }
+        expected = [(n - 2, term)].into_iter().collect();
+    }
+
+    let mut current: IndexSet<Literal> = clauses[0].iter().map(Rc::remove_all_negations).collect();
+    for (clause, (pivot, polarity)) in clauses[1..].iter().zip(&trace.pivot_trace) {
+        let (n, term) = pivot.remove_all_negations();
+        let (in_current, in_next) = if *polarity {
+            ((n, term), (n + 1, term))
+        } else {
+            ((n + 1, term), (n, term))
+        };
+        if !current.shift_remove(&in_current) {
+            return None;
+        }
+        let mut next: Vec<Literal> = clause.iter().map(Rc::remove_all_negations).collect();
+        let pos = next.iter().position(|l| *l == in_next)?;
+        next.remove(pos);
+        current.extend(next);
+    }
+    (current == expected).then_some(trace)
+}
+
+/// A derivation made of resolution steps, which all the premises are added to in order.
+struct Derivation {
+    premises: Vec<Rc<ProofNode>>,
+    args: Vec<Rc<Term>>,
+    clause: IndexSet<Rc<Term>>,
+}
+
+impl Derivation {
+    fn new(node: Rc<ProofNode>) -> Self {
+        Self {
+            clause: node.clause().iter().cloned().collect(),
+            premises: vec![node],
+            args: Vec::new(),
+        }
+    }
+
+    /// Resolves the current clause with the clause of `node`. If `polarity` is true, `pivot` is in
+    /// the current clause, and its negation in the clause of `node`; if not, it is the opposite.
+    fn resolve(
+        &mut self,
+        pool: &mut PrimitivePool,
+        node: Rc<ProofNode>,
+        pivot: Rc<Term>,
+        polarity: bool,
+    ) {
+        let negated = build_term!(pool, (not { pivot.clone() }));
+        let (in_current, in_next) = if polarity {
+            (&pivot, &negated)
+        } else {
+            (&negated, &pivot)
+        };
+        self.clause.shift_remove(in_current);
+        let pos = node.clause().iter().position(|t| t == in_next);
+        for (i, t) in node.clause().iter().enumerate() {
+            if Some(i) != pos {
+                self.clause.insert(t.clone());
+            }
+        }
+        self.premises.push(node);
+        self.args.extend([pivot, pool.bool_constant(polarity)]);
+    }
+
+    fn finish(mut self, ids: &mut IdHelper, depth: usize) -> Rc<ProofNode> {
+        if self.premises.len() == 1 {
+            return self.premises.pop().unwrap();
+        }
+        Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause: self.clause.into_iter().collect(),
+            rule: "resolution".to_owned(),
+            premises: self.premises,
+            args: self.args,
+            ..Default::default()
+        }))
+    }
+}
+
+/// Adds a step concluding `(cl (not (not (not t))) t)`
+fn not_not(
+    pool: &mut PrimitivePool,
+    ids: &mut IdHelper,
+    depth: usize,
+    t: Rc<Term>,
+) -> Rc<ProofNode> {
+    Rc::new(ProofNode::Step(StepNode {
+        id: ids.next_id(),
+        depth,
+        clause: vec![build_term!(pool, (not (not (not { t.clone() })))), t],
+        rule: "not_not".to_owned(),
+        ..Default::default()
+    }))
+}
+
+/// Removes pairs of leading negations from the literals of a clause.
+fn normalize(
+    pool: &mut PrimitivePool,
+    ids: &mut IdHelper,
+    depth: usize,
+    node: &Rc<ProofNode>,
+) -> Rc<ProofNode> {
+    let mut derivation = Derivation::new(node.clone());
+    while let Some(literal) = derivation
+        .clause
+        .iter()
+        .find(|t| t.remove_all_negations().0 >= 2)
+        .cloned()
+    {
+        let inner = literal
+            .remove_negation()
+            .unwrap()
+            .remove_negation()
+            .unwrap();
+        let not_not_step = not_not(pool, ids, depth, inner.clone());
+        derivation.resolve(pool, not_not_step, literal, true);
+    }
+    derivation.finish(ids, depth)
+}
+
+/// Derives the conclusion of a resolution step from its premises by reverse unit propagation. This
+/// is the algorithm that the checker uses if the greedy algorithm fails.
+fn rup_derivation(
+    pool: &mut PrimitivePool,
+    ids: &mut IdHelper,
+    step: &StepNode,
+) -> Option<Rc<ProofNode>> {
+    let depth = step.depth;
+    let is_constant = |t: &Rc<Term>| t.is_bool_true() || t.is_bool_false();
+    let mut nodes: Vec<_> = step.premises.iter().dedup().cloned().collect();
+    let has_constants = nodes
+        .iter()
+        .flat_map(|n| n.clause())
+        .any(|t| is_constant(t.remove_all_negations().1));
+    if has_constants {
+        let true_clause = vec![pool.bool_true()];
+        let false_term = pool.bool_false();
+        let false_clause = vec![build_term!(pool, (not { false_term }))];
+        for (rule, clause) in [("true", true_clause), ("false", false_clause)] {
+            nodes.push(Rc::new(ProofNode::Step(StepNode {
+                id: ids.next_id(),
+                depth,
+                clause,
+                rule: rule.to_owned(),
+                ..Default::default()
+            })));
+        }
+    }
+    let clauses: Vec<IndexSet<(bool, Rc<Term>)>> = nodes
+        .iter()
+        .map(|n| {
+            let literals = n.clause().iter();
+            literals
+                .map(|t| t.remove_all_negations_with_polarity())
+                .map(|(p, t)| (p, t.clone()))
+                .collect()
+        })
+        .collect();
+
+    // The literals that are true because they negate a literal of the conclusion
+    let mut assigned: HashMap<Rc<Term>, bool> = HashMap::new();
+    let mut tautology = None;
+    for t in &step.clause {
+        let (polarity, t) = t.remove_all_negations_with_polarity();
+        if assigned.insert(t.clone(), !polarity) == Some(polarity) {
+            tautology = Some(t.clone());
+        }
+    }
+
+    let node = if let Some(t) = tautology {
+        // The conclusion contains a literal and its negation
+        let negated = build_term!(pool, (not { t.clone() }));
+        let first = not_not(pool, ids, depth, t);
+        let second = not_not(pool, ids, depth, negated.clone());
+        let pivot = build_term!(pool, (not(not { negated })));
+        let mut derivation = Derivation::new(first);
+        derivation.resolve(pool, second, pivot, true);
+        derivation.finish(ids, depth)
+    } else {
+        // Propagate until a clause is falsified
+        let mut trail: Vec<(bool, Rc<Term>, usize)> = Vec::new();
+        let conflict = loop {
+            let mut unit = None;
+            let mut conflict = None;
+            for (i, clause) in clauses.iter().enumerate() {
+                if clause.iter().any(|(p, t)| assigned.get(t) == Some(p)) {
+                    continue;
+                }
+                let mut open = clause.iter().filter(|(_, t)| !assigned.contains_key(t));
+                match (open.next(), open.next()) {
+                    (None, _) => {
+                        conflict = Some(i);
+                        break;
+                    }
+                    (Some((p, t)), None) if unit.is_none() => unit = Some((*p, t.clone(), i)),
+                    _ => (),
+                }
+            }
+            if let Some(i) = conflict {
+                break i;
+            }
+            let (polarity, term, i) = unit?;
+            assigned.insert(term.clone(), polarity);
+            trail.push((polarity, term, i));
+        };
+
+        // Resolve the falsified clause with the clauses that falsified its literals
+        let mut derivation = Derivation::new(normalize(pool, ids, depth, &nodes[conflict]));
+        for (polarity, term, i) in trail.into_iter().rev() {
+            let negated = build_term!(pool, (not { term.clone() }));
+            let in_current = if polarity { &negated } else { &term };
+            if derivation.clause.contains(in_current) {
+                let reason = normalize(pool, ids, depth, &nodes[i]);
+                derivation.resolve(pool, reason, term, !polarity);
+            }
+        }
+        derivation.finish(ids, depth)
+    };
+
+    // Add back the pairs of negations that the conclusion has
+    let mut derivation = Derivation::new(node);
+    let literals: Vec<_> = derivation.clause.iter().cloned().collect();
+    for literal in literals {
+        if step.clause.contains(&literal) {
+            continue;
+        }
+        let normal = literal.remove_all_negations_with_polarity();
+        let target = step
+            .clause
+            .iter()
+            .find(|t| t.remove_all_negations_with_polarity() == normal)?
+            .clone();
+        let mut current = literal;
+        while current != target {
+            let single_not = build_term!(pool, (not { current.clone() }));
+            let double_not = build_term!(pool, (not { single_not.clone() }));
+            let quadruple_not = build_term!(pool, (not (not { double_not.clone() })));
+            let first = not_not(pool, ids, depth, single_not);
+            let second = not_not(pool, ids, depth, double_not.clone());
+            derivation.resolve(pool, first, current, true);
+            derivation.resolve(pool, second, quadruple_not, true);
+            current = double_not;
+        }
+    }
+    let node = derivation.finish(ids, depth);
+
+    // Finally, the clause must be made equal to the conclusion
+    let mut clause: Vec<_> = node.clause().iter().dedup().cloned().collect();
+    let mut last = node;
+    let mut add = |rule: &str, clause: Vec<Rc<Term>>, premise: Rc<ProofNode>| {
+        Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause,
+            rule: rule.to_owned(),
+            premises: vec![premise],
+            ..Default::default()
+        }))
+    };
+    if clause.len() != last.clause().len() {
+        last = add("contraction", clause.clone(), last);
+    }
+    let mut missing: MultiSet<_> = step.clause.iter().collect();
+    for t in &clause {
+        missing.remove(&t);
+    }
+    if clause.len() != step.clause.len() {
+        let missing: Vec<_> = missing.into_iter().cloned().collect();
+        clause.extend(missing);
+        last = add("weakening", clause.clone(), last);
+    }
+    if clause != step.clause || !last.is_step() || step.premises.contains(&last) {
+        last = add("reordering", step.clause.clone(), last);
+    }
+    let mut last = last.as_step().unwrap().clone();
+    last.id = step.id.clone();
+    last.clause = step.clause.clone();
+    Some(Rc::new(ProofNode::Step(last)))
+}
-- 
2.43.0


From 917072ab29f1e8314eeb3ec39f9d9d425f9dffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 64/98] fix: keep resolution steps that can't be uncrowded, and
 conclusions that don't depend on the order of the premises

---
 carcara/src/elaborator/reordering.rs |  70 +++++++-------
 carcara/src/elaborator/uncrowding.rs | 140 +++++++++++++++++++--------
 2 files changed, 134 insertions(+), 76 deletions(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 6267e7f..9b7072a 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::utils::DedupIterator;
+use crate::utils::{DedupIterator, MultiSet};
 
 pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     proof.mutate(|_, node, premises_changed| {
@@ -7,19 +7,23 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
             return node.clone();
         };
 
-        // For reordering steps, we remove the step and return its only premise
-        if step.rule == "reordering" {
+        // For reordering steps, we remove the step and return its only premise. We can't do this if
+        // the step closes a subproof
+        if step.rule == "reordering" && step.premises.len() == 1 && step.previous_step.is_none() {
             return step.premises[0].clone();
         }
 
         // If the rule is order-sensitive, and any premise was modified, we recompute the conclusion
         if let Some(recompute) = get_recomputation_func(&step.rule) {
             if premises_changed {
-                let new = Rc::new(ProofNode::Step(StepNode {
-                    clause: recompute(step),
-                    ..step.clone()
-                }));
-                return new;
+                // If the step is not order-sensitive after all (for example, if it is a resolution
+                // step with no pivots), there is no need to change the conclusion
+                if let Some(clause) = recompute(step) {
+                    if is_permutation(&clause, &step.clause) {
+                        let new = StepNode { clause, ..step.clone() };
+                        return Rc::new(ProofNode::Step(new));
+                    }
+                }
             }
         }
 
@@ -28,7 +32,11 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     })
 }
 
-type RecomputationFunc = fn(&StepNode) -> Vec<Rc<Term>>;
+fn is_permutation(a: &[Rc<Term>], b: &[Rc<Term>]) -> bool {
+    a.iter().collect::<MultiSet<_>>() == b.iter().collect()
+}
+
+type RecomputationFunc = fn(&StepNode) -> Option<Vec<Rc<Term>>>;
 
 fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     Some(match rule {
@@ -39,21 +47,23 @@ fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     })
 }
 
-fn recompute_weakening(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_weakening(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let mut new = step.clause.clone();
-    let premise = step.premises[0].clause();
-    new[..premise.len()].clone_from_slice(premise);
-    new
+    let premise = step.premises.first()?.clause();
+    new.get_mut(..premise.len())?.clone_from_slice(premise);
+    Some(new)
 }
 
-fn recompute_contraction(step: &StepNode) -> Vec<Rc<Term>> {
-    let new: Vec<_> = step.premises[0].clause().iter().dedup().cloned().collect();
-    assert_eq!(step.clause.len(), new.len());
-    new
+fn recompute_contraction(step: &StepNode) -> Option<Vec<Rc<Term>>> {
+    let premise = step.premises.first()?.clause();
+    Some(premise.iter().dedup().cloned().collect())
 }
 
-fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_resolution(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let premise_clauses: Vec<_> = step.premises.iter().map(|p| p.clause()).collect();
+    if premise_clauses.is_empty() || step.args.len() != 2 * (premise_clauses.len() - 1) {
+        return None;
+    }
     let pivots: Vec<_> = step
         .args
         .chunks(2)
@@ -66,10 +76,10 @@ fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
     apply_naive_resolution(&premise_clauses, &pivots)
 }
 
-fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]) -> Vec<Rc<Term>> {
-    assert!(premises.len() >= 2);
-    assert_eq!(pivots.len(), premises.len() - 1);
-
+fn apply_naive_resolution(
+    premises: &[&[Rc<Term>]],
+    pivots: &[(&Rc<Term>, bool)],
+) -> Option<Vec<Rc<Term>>> {
     let mut current = premises[0].to_vec();
 
     for (&premise, &(pivot, polarity)) in premises[1..].iter().zip(pivots) {
@@ -81,19 +91,13 @@ fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]
             }
         };
 
-        let pos = current.iter().position(|x| is_pivot(x, true)).unwrap();
+        let pos = current.iter().position(|x| is_pivot(x, true))?;
         current.remove(pos);
 
-        let mut found = false;
-        for t in premise {
-            if !found && is_pivot(t, false) {
-                found = true;
-            } else {
-                current.push(t.clone());
-            }
-        }
-        assert!(found);
+        let pos_in_next = premise.iter().position(|x| is_pivot(x, false))?;
+        let rest = premise.iter().enumerate();
+        current.extend(rest.filter(|(i, _)| *i != pos_in_next).map(|(_, t)| t.clone()));
     }
 
-    current
+    Some(current)
 }
diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 4bf64f5..7d922e4 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -20,7 +20,7 @@ impl<'a> ResolutionPremise<'a> {
     fn from_step(step: &'a StepNode) -> Vec<Self> {
         let pivots = std::iter::once(None).chain(step.args.chunks(2).map(|chunk| {
             let pivot = chunk[0].remove_all_negations();
-            let polarity = chunk[1].is_bool_true();
+            let polarity = chunk.get(1).is_some_and(|p| p.is_bool_true());
             Some((pivot, polarity))
         }));
         step.premises
@@ -34,13 +34,13 @@ impl<'a> ResolutionPremise<'a> {
     }
 }
 
-fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal<'a>> {
-    assert!(premises.len() >= 2);
-
-    let mut current = premises[0].clause.clone();
+/// Resolves the premises in order, without removing repeated literals. Returns `None` if a pivot is
+/// not found, or if removing repeated literals would give a different conclusion.
+fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Option<Vec<Literal<'a>>> {
+    let mut current = premises.first()?.clause.clone();
 
     for ResolutionPremise { clause, pivot, .. } in &premises[1..] {
-        let (pivot, polarity) = pivot.unwrap();
+        let (pivot, polarity) = (*pivot)?;
 
         let negated_pivot = (pivot.0 + 1, pivot.1);
         let (pivot_in_current, pivot_in_next) = if polarity {
@@ -49,21 +49,42 @@ fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal
             (negated_pivot, pivot)
         };
 
-        let pos = current.iter().position(|x| x == &pivot_in_current).unwrap();
+        let pos = current.iter().position(|x| x == &pivot_in_current)?;
         current.remove(pos);
 
-        let mut found = false;
-        for &t in clause {
-            if !found && t == pivot_in_next {
-                found = true;
-            } else {
-                current.push(t);
-            }
+        let pos_in_next = clause.iter().position(|x| x == &pivot_in_next)?;
+        let rest = clause.iter().enumerate();
+        current.extend(rest.filter(|(i, _)| *i != pos_in_next).map(|(_, l)| *l));
+    }
+
+    Some(current)
+}
+
+/// Returns the set of literals that result from resolving the premises in order.
+fn apply_set_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Option<HashSet<Literal<'a>>> {
+    let mut current: HashSet<_> = premises.first()?.clause.iter().copied().collect();
+
+    for ResolutionPremise { clause, pivot, .. } in &premises[1..] {
+        let (pivot, polarity) = (*pivot)?;
+
+        let negated_pivot = (pivot.0 + 1, pivot.1);
+        let (pivot_in_current, pivot_in_next) = if polarity {
+            (pivot, negated_pivot)
+        } else {
+            (negated_pivot, pivot)
+        };
+
+        if !current.remove(&pivot_in_current) {
+            return None;
         }
-        assert!(found);
+        let mut next: HashSet<_> = clause.iter().copied().collect();
+        if !next.remove(&pivot_in_next) {
+            return None;
+        }
+        current.extend(next);
     }
 
-    current
+    Some(current)
 }
 
 pub fn uncrowd_resolution(
@@ -71,11 +92,33 @@ pub fn uncrowd_resolution(
     step: &StepNode,
     rotate_premises: bool,
 ) -> Rc<ProofNode> {
+    try_uncrowd_resolution(pool, step, rotate_premises)
+        .or_else(|| {
+            // If it is not possible to uncrowd the step with the new order, we keep the original one
+            rotate_premises
+                .then(|| try_uncrowd_resolution(pool, step, false))
+                .flatten()
+        })
+        .unwrap_or_else(|| {
+            log::warn!("could not uncrowd resolution step '{}'", step.id);
+            Rc::new(ProofNode::Step(step.clone()))
+        })
+}
+
+fn try_uncrowd_resolution(
+    pool: &mut PrimitivePool,
+    step: &StepNode,
+    rotate_premises: bool,
+) -> Option<Rc<ProofNode>> {
+    if step.premises.len() < 2 || step.args.len() != 2 * (step.premises.len() - 1) {
+        return None;
+    }
+
     let target_conclusion: HashSet<_> = step.clause.iter().map(Rc::remove_all_negations).collect();
 
     let mut premises = ResolutionPremise::from_step(step);
 
-    let naive_conclusion = apply_naive_resolution(&premises);
+    let naive_conclusion = apply_naive_resolution(&premises)?;
 
     let mut literals_info =
         find_crowding_literals(&naive_conclusion, &target_conclusion, &premises);
@@ -102,15 +145,15 @@ pub fn uncrowd_resolution(
             step.depth,
             &premises[previous_cut..cut],
             &step.clause,
-        );
+        )?;
         premises[cut - 1] = ResolutionPremise { node, clause, pivot: None };
         previous_cut = cut - 1;
     }
 
-    let mut final_step = premises[previous_cut].node.as_step().unwrap().clone();
+    let mut final_step = premises[previous_cut].node.as_step()?.clone();
 
     if final_step.clause.len() != step.clause.len() {
-        let clause = get_weakening_clause(&final_step.clause, &step.clause);
+        let clause = get_weakening_clause(&final_step.clause, &step.clause)?;
         final_step = StepNode {
             id: ids.next_id(),
             depth: step.depth,
@@ -123,7 +166,9 @@ pub fn uncrowd_resolution(
 
     // We might need to add a reordering step
     if final_step.clause != step.clause {
-        assert!(final_step.clause.iter().collect::<HashSet<_>>() == step.clause.iter().collect());
+        if final_step.clause.iter().collect::<HashSet<_>>() != step.clause.iter().collect() {
+            return None;
+        }
         final_step = StepNode {
             id: ids.next_id(),
             depth: step.depth,
@@ -137,7 +182,7 @@ pub fn uncrowd_resolution(
     // To make sure elaboration is idempotent, we need to change the last id to match the original
     // step's id
     final_step.id = step.id.clone();
-    Rc::new(ProofNode::Step(final_step))
+    Some(Rc::new(ProofNode::Step(final_step)))
 }
 
 fn add_partial_resolution_step<'a>(
@@ -146,9 +191,14 @@ fn add_partial_resolution_step<'a>(
     depth: usize,
     premises: &[ResolutionPremise<'a>],
     final_target: &[Rc<Term>],
-) -> (Rc<ProofNode>, Vec<Literal<'a>>) {
-    let conclusion = apply_naive_resolution(premises);
+) -> Option<(Rc<ProofNode>, Vec<Literal<'a>>)> {
+    let conclusion = apply_naive_resolution(premises)?;
     let contracted_conclusion: Vec<_> = conclusion.iter().dedup().copied().collect();
+    if contracted_conclusion.iter().copied().collect::<HashSet<_>>()
+        != apply_set_resolution(premises)?
+    {
+        return None;
+    }
 
     let needs_contraction = contracted_conclusion.len() != conclusion.len();
 
@@ -160,19 +210,24 @@ fn add_partial_resolution_step<'a>(
         })
         .collect();
 
-    let resolution_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: literals_to_clause(pool, &conclusion),
-        rule: "resolution".to_owned(),
-        premises: premises.iter().map(|p| p.node.clone()).collect(),
-        args,
-        discharge: Vec::new(),
-        previous_step: None,
-    }));
+    // If there is only one premise, there is nothing to resolve, and we only need to contract it
+    let resolution_step = if let [premise] = premises {
+        premise.node.clone()
+    } else {
+        Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause: literals_to_clause(pool, &conclusion),
+            rule: "resolution".to_owned(),
+            premises: premises.iter().map(|p| p.node.clone()).collect(),
+            args,
+            discharge: Vec::new(),
+            previous_step: None,
+        }))
+    };
 
     if resolution_step.clause() == final_target {
-        return (resolution_step, conclusion);
+        return Some((resolution_step, conclusion));
     }
 
     if needs_contraction {
@@ -187,25 +242,24 @@ fn add_partial_resolution_step<'a>(
             discharge: Vec::new(),
             previous_step: None,
         }));
-        (contraction_step, contracted_conclusion)
+        Some((contraction_step, contracted_conclusion))
     } else {
-        (resolution_step, conclusion)
+        Some((resolution_step, conclusion))
     }
 }
 
-fn get_weakening_clause(current: &[Rc<Term>], target: &[Rc<Term>]) -> Vec<Rc<Term>> {
+fn get_weakening_clause(current: &[Rc<Term>], target: &[Rc<Term>]) -> Option<Vec<Rc<Term>>> {
     let mut missing: MultiSet<_> = target.iter().collect();
     for term in current {
-        assert!(
-            missing.get(&term) != 0,
-            "current clause is not a subset of target clause!"
-        );
+        if missing.get(&term) == 0 {
+            return None;
+        }
         missing.remove(term);
     }
 
     let mut result = current.to_vec();
     result.extend(missing.into_iter().cloned());
-    result
+    Some(result)
 }
 
 #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
-- 
2.43.0


From 997054b6dc2ae9a750369968b956ffb9e5d382da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 65/98] fix: when converting proof nodes to commands, keep ids
 unique and the previous step in place

---
 carcara/src/ast/node.rs | 87 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 84 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/node.rs b/carcara/src/ast/node.rs
index 8232b7d..29e4739 100644
--- a/carcara/src/ast/node.rs
+++ b/carcara/src/ast/node.rs
@@ -298,7 +298,7 @@ fn proof_list_to_nodes(commands: Vec<ProofCommand>) -> ProofNodeForest {
 
                 let previous_step = if stack.len() > 1 && stack.last().unwrap().commands.len() == 0
                 {
-                    Some(stack.last().unwrap().accumulator.last().unwrap().clone())
+                    stack.last().unwrap().accumulator.last().cloned()
                 } else {
                     None
                 };
@@ -370,7 +370,9 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
     loop {
         let Some((node, is_done)) = todo.pop() else {
             assert!(stack.len() == 1);
-            return stack.pop().unwrap();
+            let mut commands = stack.pop().unwrap();
+            make_ids_unique(&mut commands);
+            return commands;
         };
         if !is_done && seen.contains_key(&node) {
             continue;
@@ -392,6 +394,22 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
                 continue;
             }
             ProofNode::Step(s) => {
+                // The last step of a subproof implicitly refers to the command right before it. If
+                // that is not where the previous step ended up, we need to repeat it
+                if let Some(previous) = &s.previous_step {
+                    let (d, index) = seen[previous];
+                    if (d, index + 1) != (s.depth, stack[s.depth].len()) {
+                        stack[s.depth].push(ProofCommand::Step(ProofStep {
+                            id: previous.id().to_owned(),
+                            clause: previous.clause().to_vec(),
+                            rule: "reordering".to_owned(),
+                            premises: vec![(d, index)],
+                            args: Vec::new(),
+                            discharge: Vec::new(),
+                        }));
+                    }
+                }
+
                 let premises: Vec<_> = s.premises.iter().map(|node| seen[node]).collect();
                 let discharge: Vec<_> = s.discharge.iter().map(|node| seen[node]).collect();
                 ProofCommand::Step(ProofStep {
@@ -428,7 +446,7 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
                 if stack.is_empty() {
                     unreachable!();
                 }
-                assert!(commands.len() >= 2, "malformed subproof!");
+                assert!(!commands.is_empty(), "malformed subproof!");
 
                 ProofCommand::Subproof(Subproof {
                     commands,
@@ -446,6 +464,69 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
     }
 }
 
+/// Renames the commands whose ids are already used by another visible command.
+///
+/// The conversion to nodes and back, as well as the manipulation of proof nodes, can result in
+/// different commands having the same id.
+fn make_ids_unique(commands: &mut [ProofCommand]) {
+    use std::collections::HashSet;
+
+    fn collect(commands: &[ProofCommand], ids: &mut HashSet<String>) {
+        for c in commands {
+            ids.insert(c.id().to_owned());
+            if let ProofCommand::Subproof(s) = c {
+                collect(&s.commands, ids);
+            }
+        }
+    }
+
+    fn rename(id: &mut String, all: &mut HashSet<String>) {
+        let new = (1..)
+            .map(|i| format!("{}.u{}", id, i))
+            .find(|new| !all.contains(new))
+            .unwrap();
+        all.insert(new.clone());
+        *id = new;
+    }
+
+    fn traverse(
+        commands: &mut [ProofCommand],
+        visible: &mut Vec<HashSet<String>>,
+        all: &mut HashSet<String>,
+    ) {
+        for command in commands {
+            let is_subproof = command.is_subproof();
+            let mut last = &mut *command;
+            while let ProofCommand::Subproof(s) = last {
+                last = s.commands.last_mut().unwrap();
+            }
+            let id = match last {
+                ProofCommand::Assume { id, .. } => id,
+                ProofCommand::Step(s) => &mut s.id,
+                ProofCommand::Subproof(_) => unreachable!(),
+            };
+            if visible.iter().any(|scope| scope.contains(id)) {
+                rename(id, all);
+            }
+            visible.last_mut().unwrap().insert(id.clone());
+
+            if is_subproof {
+                let ProofCommand::Subproof(s) = command else {
+                    unreachable!()
+                };
+                visible.push(HashSet::new());
+                let n = s.commands.len() - 1;
+                traverse(&mut s.commands[..n], visible, all);
+                visible.pop();
+            }
+        }
+    }
+
+    let mut all = HashSet::new();
+    collect(commands, &mut all);
+    traverse(commands, &mut vec![HashSet::new()], &mut all);
+}
+
 #[cfg(test)]
 pub fn compare_forests(a: &ProofNodeForest, b: &ProofNodeForest) -> bool {
     a.0.len() == b.0.len() && a.0.iter().zip(b.0.iter()).all(|(a, b)| compare_nodes(a, b))
-- 
2.43.0


From 3043a05fc01b4ba5b9fd2b662be286024f9d95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 66/98] fix: when a step can't be elaborated keep it as it is,
 and elaborate polyequalities modulo n-ary expansion

---
 carcara/src/checker/mod.rs                  |   3 +-
 carcara/src/checker/rules/clausification.rs |  72 ++-
 carcara/src/checker/rules/simplification.rs |   2 +-
 carcara/src/elaborator/clausification.rs    |  11 +-
 carcara/src/elaborator/congruence.rs        |  85 ++--
 carcara/src/elaborator/mod.rs               |  27 +-
 carcara/src/elaborator/polyeq.rs            | 458 ++++++++++++--------
 carcara/src/elaborator/quantifiers.rs       |  11 +-
 carcara/src/elaborator/reflexivity.rs       |  14 +-
 carcara/src/elaborator/resolution.rs        |  12 +-
 carcara/src/elaborator/subproof.rs          |  10 +-
 carcara/src/elaborator/tautology.rs         |  29 +-
 carcara/src/elaborator/transitivity.rs      |  35 +-
 13 files changed, 475 insertions(+), 294 deletions(-)

diff --git a/carcara/src/checker/mod.rs b/carcara/src/checker/mod.rs
index 678eb02..7eaca86 100644
--- a/carcara/src/checker/mod.rs
+++ b/carcara/src/checker/mod.rs
@@ -19,7 +19,8 @@ use std::{
     time::{Duration, Instant},
 };
 
-pub(crate) use rules::clausification::apply_bfun_elim;
+pub(crate) use rules::clausification::{apply_bfun_elim, nary_expansion};
+pub(crate) use rules::simplification::apply_ac_simp;
 
 #[derive(Clone)]
 pub struct CheckerStatistics<'s, CR: CollectResults + Send + Default> {
diff --git a/carcara/src/checker/rules/clausification.rs b/carcara/src/checker/rules/clausification.rs
index b2ecf2d..fffe7bc 100644
--- a/carcara/src/checker/rules/clausification.rs
+++ b/carcara/src/checker/rules/clausification.rs
@@ -195,23 +195,19 @@ pub fn not_implies2(RuleArgs { conclusion, premises, .. }: RuleArgs) -> RuleResu
     assert_eq(phi_2, conclusion[0].remove_negation_err()?)
 }
 
-pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
-    /// The three possible cases for n-ary operators: chainable, right associative and left
-    /// associative
-    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
-    enum Case {
-        Chainable,
-        RightAssoc,
-        LeftAssoc,
-    }
-
+/// Expands the application of an n-ary operator into applications of the binary operator. This is
+/// never done for conjunctions and disjunctions.
+pub(crate) fn nary_expansion(
+    pool: &mut dyn TermPool,
+    term: &Rc<Term>,
+) -> Result<Rc<Term>, CheckerError> {
     /// A function to expand terms that fall in the right or left associative cases. For example,
     /// the term `(=> p q r s)` will be expanded into the term `(=> p (=> q (=> r s)))`.
     fn expand_assoc(
         pool: &mut dyn TermPool,
         op: Operator,
         args: &[Rc<Term>],
-        case: Case,
+        is_right: bool,
     ) -> Rc<Term> {
         let (head, tail) = match args {
             [] => unreachable!(),
@@ -219,47 +215,49 @@ pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
 
             // The "head" term will be the first or last term in `args`, depending on if the
             // operator is right or left associative
-            [first, rest @ ..] if case == Case::RightAssoc => (first, rest),
+            [first, rest @ ..] if is_right => (first, rest),
             [rest @ .., last] => (last, rest),
         };
 
         // Note: if the argument list if very long, this may overflow the stack
-        let nested = expand_assoc(pool, op, tail, case);
+        let nested = expand_assoc(pool, op, tail, is_right);
 
-        let new_args = match case {
-            Case::RightAssoc => vec![head.clone(), nested],
-            Case::LeftAssoc => vec![nested, head.clone()],
-            Case::Chainable => unreachable!(),
+        let new_args = if is_right {
+            vec![head.clone(), nested]
+        } else {
+            vec![nested, head.clone()]
         };
         pool.add(Term::Op(op, new_args))
     }
 
-    assert_clause_len(conclusion, 1)?;
-
-    let (original, result) = match_term_err!((= o r) = &conclusion[0])?;
-
-    let (op, args) = match original.as_ref() {
-        Term::Op(op, args) if args.len() >= 2 => (op, args),
-        _ => return Err(CheckerError::NotValidNaryTerm(original.clone())),
-    };
-
-    let case = match op {
-        Operator::Equals => Case::Chainable,
-        Operator::Add | Operator::Sub | Operator::Mult => Case::LeftAssoc,
-        Operator::Implies => Case::RightAssoc,
-        _ => return Err(CheckerError::NotValidNaryTerm(original.clone())),
+    let (op, args) = match term.as_ref() {
+        Term::Op(op, args)
+            if args.len() >= 2 && !matches!(op, Operator::And | Operator::Or) =>
+        {
+            (*op, args)
+        }
+        _ => return Err(CheckerError::NotValidNaryTerm(term.clone())),
     };
 
-    let expected = match case {
-        Case::Chainable => {
+    match op.nary_case() {
+        Some(NaryCase::Chainable) => {
             let and_args: Vec<_> = args
                 .windows(2)
-                .map(|args| pool.add(Term::Op(*op, args.to_vec())))
+                .map(|args| pool.add(Term::Op(op, args.to_vec())))
                 .collect();
-            pool.add(Term::Op(Operator::And, and_args))
+            Ok(pool.add(Term::Op(Operator::And, and_args)))
         }
-        assoc_case => expand_assoc(pool, *op, args, assoc_case),
-    };
+        Some(NaryCase::LeftAssoc) => Ok(expand_assoc(pool, op, args, false)),
+        Some(NaryCase::RightAssoc) => Ok(expand_assoc(pool, op, args, true)),
+        Some(NaryCase::Pairwise) | None => Err(CheckerError::NotValidNaryTerm(term.clone())),
+    }
+}
+
+pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
+
+    let (original, result) = match_term_err!((= o r) = &conclusion[0])?;
+    let expected = nary_expansion(pool, original)?;
     assert_is_expected(result, expected)
 }
 
diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 6779180..8a6dfe9 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -679,7 +679,7 @@ pub fn comp_simplify(args: RuleArgs) -> RuleResult {
     })
 }
 
-fn apply_ac_simp(
+pub(crate) fn apply_ac_simp(
     pool: &mut dyn TermPool,
     cache: &mut IndexMap<Rc<Term>, Rc<Term>>,
     term: &Rc<Term>,
diff --git a/carcara/src/elaborator/clausification.rs b/carcara/src/elaborator/clausification.rs
index 85043cc..e9a47e7 100644
--- a/carcara/src/elaborator/clausification.rs
+++ b/carcara/src/elaborator/clausification.rs
@@ -10,9 +10,12 @@ pub fn bfun_elim(
     _: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert_eq!(step.premises.len(), 1);
-    assert_eq!(step.clause.len(), 1);
-    let psi = &step.premises[0].clause()[0];
+    let [premise] = step.premises.as_slice() else {
+        return Err(CheckerError::Unspecified);
+    };
+    let ([psi], [_]) = (premise.clause(), step.clause.as_slice()) else {
+        return Err(CheckerError::Unspecified);
+    };
     let expected = apply_bfun_elim(pool, psi, &mut IndexMap::new())?;
     let got = &step.clause[0];
 
@@ -25,7 +28,7 @@ pub fn bfun_elim(
         pool,
         expected.clone(),
         got.clone(),
-    );
+    )?;
     let equiv1_step = Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth: step.depth,
diff --git a/carcara/src/elaborator/congruence.rs b/carcara/src/elaborator/congruence.rs
index c32e1e7..fc04872 100644
--- a/carcara/src/elaborator/congruence.rs
+++ b/carcara/src/elaborator/congruence.rs
@@ -65,17 +65,29 @@ fn check_cong<'a, I: IntoIterator<Item = &'a Rc<Term>>>(
 fn term_args(term: &Rc<Term>) -> &[Rc<Term>] {
     match term.as_ref() {
         Term::App(_, args) | Term::Op(_, args) | Term::ParamOp { args, .. } => args,
-        _ => panic!(),
+        _ => &[],
     }
 }
 
+/// Returns the sides of the equalities concluded by the premises of a step.
+fn premise_equalities(step: &StepNode) -> Result<Vec<(&Rc<Term>, &Rc<Term>)>, CheckerError> {
+    step.premises
+        .iter()
+        .map(|p| match p.clause() {
+            [t] => match_term_err!((= a b) = t),
+            _ => Err(CheckerError::Unspecified),
+        })
+        .collect()
+}
+
 pub fn cong(
     pool: &mut PrimitivePool,
     _: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert_eq!(step.clause.len(), 1);
-    assert!(!step.premises.is_empty());
+    if step.clause.len() != 1 {
+        return Err(CheckerError::Unspecified);
+    }
 
     let (f, g) = match_term_err!((= f g) = &step.clause[0])?;
 
@@ -94,22 +106,23 @@ pub fn cong(
             // If it's a congruence between two equalities, we need to take some extra care
             elaborate_cong_between_equalities(pool, step, fs, gs)?
         } else {
-            flip_needed_premises(pool, step.clone())
+            flip_needed_premises(pool, step.clone())?
         };
     Ok(step)
 }
 
-fn flip_needed_premises(pool: &mut PrimitivePool, step: StepNode) -> Rc<ProofNode> {
+fn flip_needed_premises(
+    pool: &mut PrimitivePool,
+    step: StepNode,
+) -> Result<Rc<ProofNode>, CheckerError> {
     let (f, g) = match_term!((= f g) = &step.clause[0]).unwrap();
     let [f_args, g_args] = [f, g].map(term_args);
-    let premises: Vec<_> = step
-        .premises
-        .iter()
-        .map(|p| match_term!((= a b) = p.clause()[0]).unwrap())
-        .collect();
+    let premises = premise_equalities(&step)?;
     let mut flipped = vec![false; premises.len()];
     let is_valid = check_cong(&premises, f_args, g_args, Some(&mut flipped));
-    assert!(is_valid);
+    if !is_valid {
+        return Err(CheckerError::Unspecified);
+    }
 
     if flipped.iter().any(|f| *f) {
         let mut ids = IdHelper::new(&step.id);
@@ -125,9 +138,12 @@ fn flip_needed_premises(pool: &mut PrimitivePool, step: StepNode) -> Rc<ProofNod
                 }
             })
             .collect();
-        Rc::new(ProofNode::Step(StepNode { premises: new_premises, ..step }))
+        Ok(Rc::new(ProofNode::Step(StepNode {
+            premises: new_premises,
+            ..step
+        })))
     } else {
-        Rc::new(ProofNode::Step(step))
+        Ok(Rc::new(ProofNode::Step(step)))
     }
 }
 
@@ -137,9 +153,6 @@ fn elaborate_cong_between_equalities(
     (f1, f2): (&Rc<Term>, &Rc<Term>),
     (g1, g2): (&Rc<Term>, &Rc<Term>),
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    // At this point, we know there are either one or two premises
-    assert!(step.premises.len() <= 2);
-
     // Similar to the `refl` case, sometimes `cong` is used to derive `(= (= a b) (= b a))`. In this
     // case, we turn the step into a `eq_symmetric` step, without any premise
     if f1 == g2 && f2 == g1 {
@@ -150,16 +163,12 @@ fn elaborate_cong_between_equalities(
         })));
     }
 
-    let premises: Vec<_> = step
-        .premises
-        .iter()
-        .map(|p| match_term!((= a b) = p.clause()[0]).unwrap())
-        .collect();
+    let premises = premise_equalities(step)?;
 
     let mut ids = IdHelper::new(&step.id);
     if check_cong(&premises, [f1, f2], [g1, g2], None) {
         // None are flipped, everything is good
-        Ok(flip_needed_premises(pool, step.clone()))
+        flip_needed_premises(pool, step.clone())
     } else if check_cong(&premises, [f2, f1], [g1, g2], None) {
         // f is flipped
         let eq_symm_step = build_eq_symm_step(pool, f1, f2, ids.next_id(), step.depth);
@@ -173,7 +182,7 @@ fn elaborate_cong_between_equalities(
             premises: step.premises.clone(),
             ..StepNode::default()
         };
-        let cong_step = flip_needed_premises(pool, cong_step);
+        let cong_step = flip_needed_premises(pool, cong_step)?;
         let trans_step = add_trans_step(pool, [eq_symm_step, cong_step], step.id.clone());
         Ok(trans_step)
     } else if check_cong(&premises, [f1, f2], [g2, g1], None) {
@@ -189,20 +198,17 @@ fn elaborate_cong_between_equalities(
             premises: step.premises.clone(),
             ..StepNode::default()
         };
-        let cong_step = flip_needed_premises(pool, cong_step);
+        let cong_step = flip_needed_premises(pool, cong_step)?;
         let trans_step = add_trans_step(pool, [cong_step, eq_symm_step], step.id.clone());
         Ok(trans_step)
     } else if check_cong(&premises, [f2, f1], [g2, g1], None) {
-        // Both are flipped. This can only happen if there are two premises
-        assert_eq!(step.premises.len(), 2);
-
-        // In this case, we can just reverse the order of the premises
+        // Both are flipped. This can only happen if there are two premises. In this
+        // case, we can just reverse the order of the premises
         let mut new_step = step.clone();
         new_step.premises.reverse();
-        Ok(flip_needed_premises(pool, new_step))
+        flip_needed_premises(pool, new_step)
     } else {
-        // the step is invalid
-        unreachable!()
+        Err(CheckerError::Unspecified)
     }
 }
 
@@ -211,19 +217,22 @@ pub fn eq_congruent(
     _: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert!(step.clause.len() >= 2);
-
-    let premises: Vec<_> = step.clause[..step.clause.len() - 1]
+    let [premises @ .., conclusion] = step.clause.as_slice() else {
+        return Err(CheckerError::Unspecified);
+    };
+    let premises: Vec<_> = premises
         .iter()
-        .map(|term| match_term!((not (= t u)) = term).unwrap())
-        .collect();
+        .map(|term| match_term_err!((not (= t u)) = term))
+        .collect::<Result<_, _>>()?;
 
-    let (f, g) = match_term_err!((= f g) = step.clause.last().unwrap())?;
+    let (f, g) = match_term_err!((= f g) = conclusion)?;
     let [f_args, g_args] = [f, g].map(term_args);
 
     let mut flipped = vec![false; premises.len()];
     let is_valid = check_cong(&premises, f_args, g_args, Some(&mut flipped));
-    assert!(is_valid);
+    if !is_valid {
+        return Err(CheckerError::Unspecified);
+    }
 
     if !flipped.iter().any(|f| *f) {
         return Ok(Rc::new(ProofNode::Step(step.clone())));
diff --git a/carcara/src/elaborator/mod.rs b/carcara/src/elaborator/mod.rs
index e2e8eed..52b8d4c 100644
--- a/carcara/src/elaborator/mod.rs
+++ b/carcara/src/elaborator/mod.rs
@@ -161,10 +161,11 @@ impl<'e> Elaborator<'e> {
                     if context.is_empty() && !self.problem.premises.contains(term) =>
                 {
                     self.elaborate_assume(id, *depth, term)
+                        .unwrap_or_else(|e| not_elaborated(node, &e))
                 }
                 ProofNode::Step(s) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
-                        func(self.pool, context, s).unwrap() // TODO: add proper error handling
+                        func(self.pool, context, s).unwrap_or_else(|e| not_elaborated(node, &e))
                     } else {
                         node.clone()
                     }
@@ -190,7 +191,8 @@ impl<'e> Elaborator<'e> {
             match node.as_ref() {
                 ProofNode::Step(s) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
-                        return func(self.pool, context, s).unwrap(); // TODO: add proper error handling
+                        return func(self.pool, context, s)
+                            .unwrap_or_else(|e| not_elaborated(node, &e));
                     }
                 }
                 ProofNode::Subproof(_) => unreachable!(),
@@ -200,7 +202,12 @@ impl<'e> Elaborator<'e> {
         })
     }
 
-    fn elaborate_assume(&mut self, id: &str, depth: usize, term: &Rc<Term>) -> Rc<ProofNode> {
+    fn elaborate_assume(
+        &mut self,
+        id: &str,
+        depth: usize,
+        term: &Rc<Term>,
+    ) -> Result<Rc<ProofNode>, CheckerError> {
         let mut found = None;
         for p in &self.problem.premises {
             if Polyeq::new()
@@ -212,7 +219,7 @@ impl<'e> Elaborator<'e> {
                 break;
             }
         }
-        let premise = found.expect("trying to elaborate assume, but it is invalid!");
+        let premise = found.ok_or_else(|| CheckerError::Assume(term.clone()))?;
 
         let new_assume = Rc::new(ProofNode::Assume {
             id: id.to_owned(),
@@ -225,7 +232,7 @@ impl<'e> Elaborator<'e> {
             self.pool,
             premise.clone(),
             term.clone(),
-        );
+        )?;
 
         let equiv1_step = Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
@@ -239,7 +246,7 @@ impl<'e> Elaborator<'e> {
             ..Default::default()
         }));
 
-        Rc::new(ProofNode::Step(StepNode {
+        Ok(Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
             depth,
             clause: vec![term.clone()],
@@ -247,10 +254,16 @@ impl<'e> Elaborator<'e> {
             premises: vec![new_assume, equiv1_step],
             args: vec![premise, self.pool.bool_true()],
             ..Default::default()
-        }))
+        })))
     }
 }
 
+/// If a node can't be elaborated, it is kept as it is.
+fn not_elaborated(node: &Rc<ProofNode>, error: &CheckerError) -> Rc<ProofNode> {
+    log::warn!("could not elaborate '{}': {}", node.id(), error);
+    node.clone()
+}
+
 fn add_refl_step(
     pool: &mut dyn TermPool,
     a: Rc<Term>,
diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index f4885d9..2fd7889 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -1,8 +1,18 @@
 use super::*;
 use crate::{
     ast::*,
+    checker::{apply_ac_simp, nary_expansion},
     utils::{DedupIterator, HashMapStack},
 };
+use indexmap::IndexMap;
+
+/// The result of elaborating a polyequality. If it can't be elaborated, this is an error describing
+/// why.
+type PolyeqResult = Result<Rc<ProofNode>, CheckerError>;
+
+fn not_elaborated(a: &Rc<Term>, b: &Rc<Term>) -> CheckerError {
+    CheckerError::Explanation(format!("could not elaborate equality of '{a}' and '{b}'"))
+}
 
 pub(super) struct PolyeqElaborator<'a> {
     ids: &'a mut IdHelper,
@@ -20,6 +30,7 @@ impl<'a> PolyeqElaborator<'a> {
             cache: HashMapStack::new(),
             checker: Polyeq::new()
                 .mod_reordering(true)
+                .mod_nary(true)
                 .alpha_equiv(is_alpha_equivalence),
             context: is_alpha_equivalence.then(ContextStack::new),
         }
@@ -32,16 +43,16 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         a: Rc<Term>,
         b: Rc<Term>,
-    ) -> Rc<ProofNode> {
+    ) -> PolyeqResult {
         let key = (a, b);
         if let Some(p) = self.cache.get(&key) {
-            return p.clone();
+            return Ok(p.clone());
         }
         // We have to do this to avoid moving `a` and `b` when calling `self.cache.get`
         let (a, b) = key.clone();
-        let result = self.elaborate_impl(pool, a, b);
+        let result = self.elaborate_impl(pool, a, b)?;
         self.cache.insert(key, result.clone());
-        result
+        Ok(result)
     }
 
     fn elaborate_impl(
@@ -49,10 +60,10 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         a: Rc<Term>,
         b: Rc<Term>,
-    ) -> Rc<ProofNode> {
+    ) -> PolyeqResult {
         if self.directly_eq(pool, &a, &b) {
             let id = self.ids.next_id();
-            return add_refl_step(pool, a, b, id, self.depth());
+            return Ok(add_refl_step(pool, a, b, id, self.depth()));
         }
 
         if let Some((a_left, a_right)) = match_term!((= x y) = a) {
@@ -66,44 +77,37 @@ impl<'a> PolyeqElaborator<'a> {
         }
 
         match (a.as_ref(), b.as_ref()) {
-            (Term::App(a_func, a_args), Term::App(b_func, b_args)) => {
-                assert_eq!(a_func, b_func);
-                assert_eq!(a_args.len(), b_args.len());
+            (Term::App(a_func, a_args), Term::App(b_func, b_args))
+                if a_func == b_func && a_args.len() == b_args.len() =>
+            {
                 self.build_cong(pool, (&a, &b), (a_args, b_args))
             }
-            (Term::Op(a_op, a_args), Term::Op(b_op, b_args)) => {
-                if a_op != b_op {
-                    todo!("elaborate chainable nary")
-                } else if a_args.len() != b_args.len() {
-                    let (nary, binary) = if a_args.len() == 2 {
-                        assert!(b_args.len() > 2);
-                        (b_args, &a)
-                    } else if b_args.len() == 2 {
-                        assert!(a_args.len() > 2);
-                        (a_args, &b)
-                    } else {
-                        panic!("invalid associative nary case")
-                    };
-                    self.elaborate_assoc(pool, *a_op, nary, binary)
-                } else {
-                    self.build_cong(pool, (&a, &b), (a_args, b_args))
-                }
+            (
+                Term::ParamOp { op: a_op, op_args: a_op_args, args: a_args },
+                Term::ParamOp { op: b_op, op_args: b_op_args, args: b_args },
+            ) if a_op == b_op && a_op_args == b_op_args && a_args.len() == b_args.len() => {
+                self.build_cong(pool, (&a, &b), (a_args, b_args))
             }
-
-            // Since `choice` and `lambda` terms are not in the SMT-LIB standard, they cannot appear
-            // in the premises of a proof, so we would never need to elaborate polyequalities that
-            // use these terms.
-            (Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _), _)
-            | (_, Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _)) => {
-                log::error!("Trying to elaborate polyequality between `{b}` terms");
-                panic!()
+            (Term::Op(a_op, a_args), Term::Op(b_op, b_args))
+                if a_op == b_op && a_args.len() == b_args.len() =>
+            {
+                self.build_cong(pool, (&a, &b), (a_args, b_args))
             }
+            _ if (a.is_const() || b.is_const()) && self.polyeq(pool, &a, &b) => {
+                self.elaborate_constants(pool, a, b)
+            }
+            (Term::Op(..), _) | (_, Term::Op(..)) => self.elaborate_nary(pool, a, b),
+
             (Term::Binder(a_q, a_bindings, a_inner), Term::Binder(b_q, b_bindings, b_inner)) => {
-                assert_eq!(a_q, b_q);
+                if a_q != b_q || a_bindings.len() != b_bindings.len() {
+                    return Err(not_elaborated(&a, &b));
+                }
 
                 let args: Vec<_> = match &mut self.context {
                     None => {
-                        assert_eq!(a_bindings, b_bindings);
+                        if a_bindings != b_bindings {
+                            return Err(not_elaborated(&a, &b));
+                        }
 
                         let variable_args = a_bindings.iter().cloned().map(AnchorArg::Variable);
 
@@ -116,7 +120,9 @@ impl<'a> PolyeqElaborator<'a> {
                     }
                     Some(c) => {
                         let a_sorts = a_bindings.iter().map(|(_, sort)| sort);
-                        assert!(a_sorts.eq(b_bindings.iter().map(|(_, sort)| sort)));
+                        if !a_sorts.eq(b_bindings.iter().map(|(_, sort)| sort)) {
+                            return Err(not_elaborated(&a, &b));
+                        }
 
                         let variable_args = a_bindings
                             .iter()
@@ -140,7 +146,7 @@ impl<'a> PolyeqElaborator<'a> {
                 };
 
                 self.open_subproof();
-                let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
+                let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
 
                 if let Some(c) = &mut self.context {
                     c.pop();
@@ -153,11 +159,13 @@ impl<'a> PolyeqElaborator<'a> {
                     previous_step: Some(previous),
                     ..Default::default()
                 };
-                self.close_subproof(args, last_step, Vec::new())
+                Ok(self.close_subproof(args, last_step, Vec::new()))
             }
 
             (Term::Let(a_bindings, a_inner), Term::Let(b_bindings, b_inner)) => {
-                assert_eq!(a_bindings.len(), b_bindings.len());
+                if a_bindings.len() != b_bindings.len() {
+                    return Err(not_elaborated(&a, &b));
+                }
 
                 let args: Vec<_> = a_bindings
                     .iter()
@@ -167,21 +175,19 @@ impl<'a> PolyeqElaborator<'a> {
                 // The values of the binding lists in the `let` terms may not be syntactically
                 // identical, in which case we need to prove their equality so the `bind_let` step
                 // is valid.
-                let premises: Vec<_> = a_bindings
-                    .iter()
-                    .zip(b_bindings)
-                    .filter_map(|(a, b)| {
-                        assert_eq!(a.0, b.0);
-                        if a.1 == b.1 {
-                            None
-                        } else {
-                            Some(self.elaborate(pool, a.1.clone(), b.1.clone()))
-                        }
-                    })
-                    .collect();
+                let mut premises = Vec::new();
+                for (a_binding, b_binding) in a_bindings.iter().zip(b_bindings) {
+                    if a_binding.0 != b_binding.0 {
+                        return Err(not_elaborated(&a, &b));
+                    }
+                    if a_binding.1 != b_binding.1 {
+                        let (a_value, b_value) = (a_binding.1.clone(), b_binding.1.clone());
+                        premises.push(self.elaborate(pool, a_value, b_value)?);
+                    }
+                }
 
                 self.open_subproof();
-                let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
+                let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
                 let last_step = StepNode {
                     id: String::new(), // this will be overwritten later
                     depth: self.depth(),
@@ -194,16 +200,9 @@ impl<'a> PolyeqElaborator<'a> {
                 };
                 // The premises to the `bind_let` step are outbound, so we need to pass them to
                 // `close_subproof`
-                self.close_subproof(args, last_step, premises)
-            }
-            // If one of the terms is a constant, but they are still polyequal, we can't break it up
-            // into smaller parts, so we just use a direct refl step. This is hack to deal with the
-            // case where one of the terms was passed as a GMP-style constant.
-            _ if (a.is_const() || b.is_const()) && self.polyeq(pool, &a, &b) => {
-                let id = self.ids.next_id();
-                add_refl_step(pool, a, b, id, self.depth())
+                Ok(self.close_subproof(args, last_step, premises))
             }
-            _ => panic!("terms not equal!"),
+            _ => Err(not_elaborated(&a, &b)),
         }
     }
 
@@ -233,36 +232,69 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         (a, b): (&Rc<Term>, &Rc<Term>),
         (a_args, b_args): (&[Rc<Term>], &[Rc<Term>]),
-    ) -> Rc<ProofNode> {
+    ) -> PolyeqResult {
         let clause = vec![build_term!(pool, (= {a.clone()} {b.clone()}))];
         let premises = a_args
             .iter()
             .zip(b_args)
-            .filter_map(|(a, b)| {
-                if a == b {
-                    None
-                } else {
-                    Some(self.elaborate(pool, a.clone(), b.clone()))
-                }
-            })
-            .collect();
+            .filter(|(a, b)| a != b)
+            .map(|(a, b)| self.elaborate(pool, a.clone(), b.clone()))
+            .collect::<Result<_, _>>()?;
 
+        Ok(self.step(clause, "cong", premises))
+    }
+
+    fn step(
+        &mut self,
+        clause: Vec<Rc<Term>>,
+        rule: &str,
+        premises: Vec<Rc<ProofNode>>,
+    ) -> Rc<ProofNode> {
         Rc::new(ProofNode::Step(StepNode {
             id: self.ids.next_id(),
             depth: self.depth(),
             clause,
-            rule: "cong".to_owned(),
+            rule: rule.to_owned(),
             premises,
             ..Default::default()
         }))
     }
 
+    /// If one of the terms is a constant, and the other is a division or negation literal with the
+    /// same value, we can't break them up into smaller parts, so we evaluate the literal.
+    fn elaborate_constants(
+        &mut self,
+        pool: &mut PrimitivePool,
+        a: Rc<Term>,
+        b: Rc<Term>,
+    ) -> PolyeqResult {
+        let (literal, constant) = if a.is_const() { (&b, &a) } else { (&a, &b) };
+        let rule = match literal.as_ref() {
+            Term::Op(Operator::Sub, _) => "minus_simplify",
+            Term::Op(Operator::RealDiv, _) => "div_simplify",
+            _ => {
+                // This is a hack to deal with the case where one of the terms was passed as a
+                // GMP-style constant.
+                let id = self.ids.next_id();
+                return Ok(add_refl_step(pool, a, b, id, self.depth()));
+            }
+        };
+        let clause = vec![build_term!(pool, (= {literal.clone()} {constant.clone()}))];
+        let step = self.step(clause, rule, Vec::new());
+        if a.is_const() {
+            let id = self.ids.next_id();
+            Ok(add_symm_step(pool, &step, id))
+        } else {
+            Ok(step)
+        }
+    }
+
     fn flip_equality(
         &mut self,
         pool: &mut PrimitivePool,
         (a, a_left, a_right): (Rc<Term>, Rc<Term>, Rc<Term>),
         (b, b_left, b_right): (Rc<Term>, Rc<Term>, Rc<Term>),
-    ) -> Rc<ProofNode> {
+    ) -> PolyeqResult {
         // Let's define:
         //     a := (= x y)
         //     b := (= y' x')
@@ -299,13 +331,8 @@ impl<'a> PolyeqElaborator<'a> {
 
         // Simpler case
         if a_left == b_right && a_right == b_left {
-            return Rc::new(ProofNode::Step(StepNode {
-                id: self.ids.next_id(),
-                depth: self.depth(),
-                clause: vec![build_term!(pool, (= {a} {b}))],
-                rule: "eq_symmetric".to_owned(),
-                ..Default::default()
-            }));
+            let clause = vec![build_term!(pool, (= {a} {b}))];
+            return Ok(self.step(clause, "eq_symmetric", Vec::new()));
         }
 
         // To create the `cong` step that derives `(= (= x y) (= x' y'))`, we use the `build_cong`
@@ -316,17 +343,13 @@ impl<'a> PolyeqElaborator<'a> {
             pool,
             (&a, &flipped_b),
             (&[a_left, a_right], &[b_right, b_left]),
-        );
+        )?;
 
-        let equiv_step = Rc::new(ProofNode::Step(StepNode {
-            id: self.ids.next_id(),
-            depth: self.depth(),
-            clause: vec![build_term!(pool, (= {flipped_b} {b.clone()}))],
-            rule: "eq_symmetric".to_owned(),
-            ..Default::default()
-        }));
+        let clause = vec![build_term!(pool, (= {flipped_b} {b.clone()}))];
+        let equiv_step = self.step(clause, "eq_symmetric", Vec::new());
 
-        add_trans_step(pool, [cong_step, equiv_step], self.ids.next_id())
+        let id = self.ids.next_id();
+        Ok(add_trans_step(pool, [cong_step, equiv_step], id))
     }
 
     fn open_subproof(&mut self) {
@@ -360,117 +383,212 @@ impl<'a> PolyeqElaborator<'a> {
         &mut self,
         pool: &mut PrimitivePool,
         inner_equality: (Rc<Term>, Rc<Term>),
-    ) -> Rc<ProofNode> {
+    ) -> PolyeqResult {
         let (a, b) = inner_equality;
 
-        let inner_eq = self.elaborate(pool, a.clone(), b.clone());
+        let inner_eq = self.elaborate(pool, a.clone(), b.clone())?;
 
         // The inner equality step may be skipped if it was already derived before. In this case,
         // the end step must have something to implicitly reference, so we must add a step that
         // copies that clause to inside the subproof. We do that with a dummy `reordering` step.
-        if inner_eq.as_step().is_some_and(|s| s.depth == self.depth()) {
-            inner_eq
+        if inner_eq.depth() == self.depth() {
+            Ok(inner_eq)
         } else {
             let clause = vec![build_term!(pool, (= {a} {b}))];
-            Rc::new(ProofNode::Step(StepNode {
-                id: self.ids.next_id(),
-                depth: self.depth(),
-                clause,
-                rule: "reordering".to_owned(),
-                premises: vec![inner_eq],
-                ..Default::default()
-            }))
+            Ok(self.step(clause, "reordering", vec![inner_eq]))
         }
     }
 
-    fn elaborate_assoc(
+    /// Elaborates the equality of two terms that are equal modulo the expansion of n-ary operators,
+    /// where at least one of them is the application of an operator.
+    fn elaborate_nary(
         &mut self,
         pool: &mut PrimitivePool,
-        op: Operator,
-        nary: &[Rc<Term>],
-        binary: &Rc<Term>,
-    ) -> Rc<ProofNode> {
-        assert!(matches!(
-            op.nary_case(),
-            Some(NaryCase::RightAssoc | NaryCase::LeftAssoc)
-        ));
-        let mut premises = Vec::new();
-        let mut normalized_args = self.get_assoc_premises(pool, &mut premises, op, nary, binary);
-
-        if premises.is_empty() {
-            let nary = pool.add(Term::Op(op, nary.to_vec()));
-            return Rc::new(ProofNode::Step(StepNode {
-                id: self.ids.next_id(),
-                depth: self.depth(),
-                clause: vec![build_term!(pool, (= {nary} {binary.clone()}))],
-                rule: "nary_elim".to_owned(),
-                ..Default::default()
-            }));
+        a: Rc<Term>,
+        b: Rc<Term>,
+    ) -> PolyeqResult {
+        // If one of the terms is an operator applied to a single argument, we remove the operator
+        for (unary, other, flipped) in [(&a, &b, false), (&b, &a, true)] {
+            let Some((op, [arg])) = unary.as_op() else {
+                continue;
+            };
+            let rule = match op {
+                Operator::And => "and_simplify",
+                Operator::Or => "or_simplify",
+                Operator::Add => "sum_simplify",
+                Operator::Mult => "prod_simplify",
+                _ => continue,
+            };
+            let is_equal = if flipped {
+                self.polyeq(pool, other, arg)
+            } else {
+                self.polyeq(pool, arg, other)
+            };
+            if !is_equal {
+                continue;
+            }
+            let clause = vec![build_term!(pool, (= {unary.clone()} {arg.clone()}))];
+            let removed = self.step(clause, rule, Vec::new());
+            return if flipped {
+                let id = self.ids.next_id();
+                let removed = add_symm_step(pool, &removed, id);
+                let equal = self.elaborate(pool, other.clone(), arg.clone())?;
+                let id = self.ids.next_id();
+                Ok(add_trans_step(pool, [equal, removed], id))
+            } else {
+                let equal = self.elaborate(pool, arg.clone(), other.clone())?;
+                let id = self.ids.next_id();
+                Ok(add_trans_step(pool, [removed, equal], id))
+            };
         }
 
-        if op.nary_case() == Some(NaryCase::RightAssoc) {
-            normalized_args.reverse();
+        match (a.as_op(), b.as_op()) {
+            (Some((op @ (Operator::And | Operator::Or), _)), Some((b_op, _))) if op == b_op => {
+                self.elaborate_junction(pool, op, a, b)
+            }
+            // Otherwise, we expand both terms, such that they are applications of the same operator
+            // to the same number of arguments
+            (a_op, b_op) => {
+                let is_chain = a_op.map(|t| t.0) != b_op.map(|t| t.0);
+                let expand = |pool: &mut PrimitivePool, t: &Rc<Term>| match t.as_op() {
+                    Some((op, _))
+                        if (op.nary_case() == Some(NaryCase::Chainable)) == is_chain =>
+                    {
+                        nary_expansion(pool, t).ok().filter(|new| new != t)
+                    }
+                    _ => None,
+                };
+                let a_expanded = expand(pool, &a);
+                let b_expanded = expand(pool, &b);
+                let new_a = a_expanded.clone().unwrap_or_else(|| a.clone());
+                let new_b = b_expanded.clone().unwrap_or_else(|| b.clone());
+                let same_shape = match (new_a.as_op(), new_b.as_op()) {
+                    (Some((a_op, a_args)), Some((b_op, b_args))) => {
+                        a_op == b_op && a_args.len() == b_args.len()
+                    }
+                    _ => false,
+                };
+                if !same_shape || !self.polyeq(pool, &new_a, &new_b) {
+                    return Err(not_elaborated(&a, &b));
+                }
+
+                let mut steps = Vec::new();
+                if new_a != a {
+                    let clause = vec![build_term!(pool, (= {a} {new_a.clone()}))];
+                    steps.push(self.step(clause, "nary_elim", Vec::new()));
+                }
+                if new_a != new_b {
+                    steps.push(self.elaborate(pool, new_a, new_b.clone())?);
+                }
+                if new_b != b {
+                    let clause = vec![build_term!(pool, (= {b} {new_b}))];
+                    let expansion = self.step(clause, "nary_elim", Vec::new());
+                    let id = self.ids.next_id();
+                    steps.push(add_symm_step(pool, &expansion, id));
+                }
+                self.chain(pool, steps)
+            }
         }
+    }
 
-        let nary = pool.add(Term::Op(op, nary.to_vec()));
-        let normalized = pool.add(Term::Op(op, normalized_args));
-        let cong_step = Rc::new(ProofNode::Step(StepNode {
-            id: self.ids.next_id(),
-            depth: self.depth(),
-            clause: vec![build_term!(pool, (= {nary.clone()} {normalized.clone()}))],
-            rule: "cong".to_owned(),
-            premises,
-            ..Default::default()
-        }));
-        let nary_elim_step = Rc::new(ProofNode::Step(StepNode {
-            id: self.ids.next_id(),
-            depth: self.depth(),
-            clause: vec![build_term!(pool, (= {normalized.clone()} {binary.clone()}))],
-            rule: "nary_elim".to_owned(),
-            ..Default::default()
-        }));
+    fn chain(&mut self, pool: &mut PrimitivePool, mut steps: Vec<Rc<ProofNode>>) -> PolyeqResult {
+        if steps.len() == 1 {
+            return Ok(steps.pop().unwrap());
+        }
+        let id = self.ids.next_id();
+        Ok(add_trans_step(pool, steps, id))
+    }
+
+    /// Elaborates the equality of two conjunctions, or two disjunctions, that are nested in
+    /// different ways. The `nary_elim` rule can't be used for these operators, so we use `ac_simp`.
+    fn elaborate_junction(
+        &mut self,
+        pool: &mut PrimitivePool,
+        op: Operator,
+        a: Rc<Term>,
+        b: Rc<Term>,
+    ) -> PolyeqResult {
+        // If the nested arguments are also different, we first make them equal
+        let mut steps = Vec::new();
+        let target = self.align(pool, op, &a, &b)?;
+        if a != target {
+            steps.push(self.elaborate(pool, a, target.clone())?);
+        }
+
+        let a_simplified = apply_ac_simp(pool, &mut IndexMap::new(), &target);
+        let b_simplified = apply_ac_simp(pool, &mut IndexMap::new(), &b);
+        if a_simplified != b_simplified {
+            return Err(not_elaborated(&target, &b));
+        }
 
-        add_trans_step(pool, [cong_step, nary_elim_step], self.ids.next_id())
+        let clause = vec![build_term!(pool, (= {target} {a_simplified}))];
+        steps.push(self.step(clause, "ac_simp", Vec::new()));
+        let clause = vec![build_term!(pool, (= {b} {b_simplified}))];
+        let simplified = self.step(clause, "ac_simp", Vec::new());
+        let id = self.ids.next_id();
+        steps.push(add_symm_step(pool, &simplified, id));
+        self.chain(pool, steps)
     }
 
-    fn get_assoc_premises(
+    /// Given two left-associative terms that are equal modulo n-ary expansion, returns the result of
+    /// replacing the arguments in the first by the arguments in the second.
+    fn align(
         &mut self,
         pool: &mut PrimitivePool,
-        premises: &mut Vec<Rc<ProofNode>>,
         op: Operator,
-        nary: &[Rc<Term>],
-        binary: &Rc<Term>,
-    ) -> Vec<Rc<Term>> {
-        let is_right = op.nary_case() == Some(NaryCase::RightAssoc);
-        let (nary_head, nary_tail) = match nary {
-            [] => panic!("invalid associative nary case"),
-            [single] => {
-                if single != binary {
-                    premises.push(self.elaborate(pool, single.clone(), binary.clone()));
+        a: &Rc<Term>,
+        b: &Rc<Term>,
+    ) -> Result<Rc<Term>, CheckerError> {
+        fn flatten(op: Operator, t: &Rc<Term>, result: &mut Vec<Rc<Term>>, fuel: usize) {
+            match t.as_op() {
+                Some((inner, [first, rest @ ..])) if inner == op && !rest.is_empty() && fuel > 0 => {
+                    flatten(op, first, result, fuel - rest.len().min(fuel));
+                    result.extend(rest.iter().cloned());
                 }
-                return vec![binary.clone()];
+                _ => result.push(t.clone()),
             }
-            [first, rest @ ..] if is_right => (first, rest),
-            [rest @ .., last] => (last, rest),
-        };
+        }
 
-        let (binary_head, binary_tail) = match binary.as_op() {
-            Some((inner_op, [l, r])) if inner_op == op => {
-                if is_right {
-                    (l, r)
-                } else {
-                    (r, l)
+        fn size(op: Operator, t: &Rc<Term>) -> usize {
+            match t.as_op() {
+                Some((inner, [first, rest @ ..])) if inner == op && !rest.is_empty() => {
+                    size(op, first) + rest.len()
                 }
+                _ => 1,
             }
-            _ => panic!("invalid associative nary case"),
-        };
+        }
 
-        if nary_head != binary_head {
-            premises.push(self.elaborate(pool, nary_head.clone(), binary_head.clone()));
+        fn replace(
+            pool: &mut PrimitivePool,
+            op: Operator,
+            t: &Rc<Term>,
+            new: &[Rc<Term>],
+        ) -> Rc<Term> {
+            match (t.as_op(), new) {
+                (_, [single]) => single.clone(),
+                (Some((_, [first, rest @ ..])), _) => {
+                    let n = new.len() - rest.len();
+                    let mut args = vec![replace(pool, op, first, &new[..n])];
+                    args.extend(new[n..].iter().cloned());
+                    pool.add(Term::Op(op, args))
+                }
+                _ => unreachable!(),
+            }
         }
 
-        let mut args = self.get_assoc_premises(pool, premises, op, nary_tail, binary_tail);
-        args.push(binary_head.clone());
-        args
+        // If one of the sides has a longer spine, its nested terms are a single argument of the other
+        let n = size(op, a).min(size(op, b)) - 1;
+        let [mut a_args, mut b_args] = [Vec::new(), Vec::new()];
+        flatten(op, a, &mut a_args, n);
+        flatten(op, b, &mut b_args, n);
+        if a_args.len() != b_args.len() {
+            return Err(not_elaborated(a, b));
+        }
+        for (x, y) in a_args.iter().zip(&b_args) {
+            if !self.polyeq(pool, x, y) {
+                return Err(not_elaborated(a, b));
+            }
+        }
+        Ok(replace(pool, op, a, &b_args))
     }
 }
diff --git a/carcara/src/elaborator/quantifiers.rs b/carcara/src/elaborator/quantifiers.rs
index 75f6e14..94d126c 100644
--- a/carcara/src/elaborator/quantifiers.rs
+++ b/carcara/src/elaborator/quantifiers.rs
@@ -7,20 +7,23 @@ pub fn forall_inst(
     _: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert_eq!(step.clause.len(), 1);
+    if step.clause.len() != 1 {
+        return Err(CheckerError::Unspecified);
+    }
 
     let (quantified, substituted) =
         match_term_err!((or (not quantified) result) = &step.clause[0])?;
     let (bindings, original) = match_term_err!((forall ... original) = quantified)?;
 
-    assert_eq!(step.args.len(), bindings.len());
+    if step.args.len() != bindings.len() {
+        return Err(CheckerError::Unspecified);
+    }
 
     // iterate over the bindings and arguments simultaneously, building the substitution
     let substitution: IndexMap<_, _> = bindings
         .iter()
         .zip(&step.args)
         .map(|((var_name, sort), value)| {
-            assert_eq!(sort, &pool.sort(value));
             let var = pool.add(Term::new_var(var_name, sort.clone()));
             (var.clone(), value.clone())
         })
@@ -58,7 +61,7 @@ pub fn forall_inst(
             pool,
             p.clone(),
             p_prime.clone(),
-        )
+        )?
     };
 
     let or_term = build_term!(pool, (or (not {quantified.clone()}) {p.clone()}));
diff --git a/carcara/src/elaborator/reflexivity.rs b/carcara/src/elaborator/reflexivity.rs
index 05a08fc..82747de 100644
--- a/carcara/src/elaborator/reflexivity.rs
+++ b/carcara/src/elaborator/reflexivity.rs
@@ -18,7 +18,7 @@ fn elaborate_equality(
     r: &Rc<Term>,
     ids: &mut IdHelper,
     depth: usize,
-) -> Rc<ProofNode> {
+) -> Result<Rc<ProofNode>, CheckerError> {
     let is_alpha_equivalence = !polyeq(l, r);
     PolyeqElaborator::new(ids, depth, is_alpha_equivalence).elaborate(pool, l.clone(), r.clone())
 }
@@ -28,7 +28,9 @@ pub fn refl(
     context: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert_eq!(step.clause.len(), 1);
+    if step.clause.len() != 1 {
+        return Err(CheckerError::Unspecified);
+    }
 
     let (left, right) = match_term_err!((= l r) = &step.clause[0])?;
 
@@ -80,22 +82,22 @@ pub fn refl(
     // cases
     if alpha_equiv(left, right) {
         // First, the case where no context application is needed, only polyequality reasoning
-        Ok(elaborate_equality(pool, left, right, &mut ids, depth))
+        elaborate_equality(pool, left, right, &mut ids, depth)
     } else if alpha_equiv(&new_left, right) {
         // Next, the one where we only need to apply the context on the left
         let left_refl = add_refl_step(pool, left.clone(), new_left.clone(), ids.next_id(), depth);
-        let polyeq = elaborate_equality(pool, &new_left, right, &mut ids, depth);
+        let polyeq = elaborate_equality(pool, &new_left, right, &mut ids, depth)?;
         Ok(add_trans_step(pool, [left_refl, polyeq], step.id.clone()))
     } else if alpha_equiv(left, &new_right) {
         // Next, when we need to apply the context on the right
-        let polyeq = elaborate_equality(pool, left, &new_right, &mut ids, depth);
+        let polyeq = elaborate_equality(pool, left, &new_right, &mut ids, depth)?;
         let right_refl = add_refl_step(pool, right.clone(), new_right, ids.next_id(), depth);
         let right_symm = add_symm_step(pool, &right_refl, ids.next_id());
         Ok(add_trans_step(pool, [polyeq, right_symm], step.id.clone()))
     } else if alpha_equiv(&new_left, &new_right) {
         // And finally, the case where we need to apply it to both sides
         let left_refl = add_refl_step(pool, left.clone(), new_left.clone(), ids.next_id(), depth);
-        let polyeq = elaborate_equality(pool, &new_left, &new_right, &mut ids, depth);
+        let polyeq = elaborate_equality(pool, &new_left, &new_right, &mut ids, depth)?;
         let right_refl = add_refl_step(pool, right.clone(), new_right, ids.next_id(), depth);
         let right_symm = add_symm_step(pool, &right_refl, ids.next_id());
         Ok(add_trans_step(
diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index 5d5f881..fc8b643 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -260,7 +260,7 @@ fn not_not(
     }))
 }
 
-/// Removes pairs of leading negations from the literals of a clause.
+/// Removes repeated literals, and pairs of leading negations from the literals of a clause.
 fn normalize(
     pool: &mut PrimitivePool,
     ids: &mut IdHelper,
@@ -268,6 +268,16 @@ fn normalize(
     node: &Rc<ProofNode>,
 ) -> Rc<ProofNode> {
     let mut derivation = Derivation::new(node.clone());
+    if derivation.clause.len() != node.clause().len() {
+        derivation = Derivation::new(Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause: derivation.clause.into_iter().collect(),
+            rule: "contraction".to_owned(),
+            premises: vec![node.clone()],
+            ..Default::default()
+        })));
+    }
     while let Some(literal) = derivation
         .clause
         .iter()
diff --git a/carcara/src/elaborator/subproof.rs b/carcara/src/elaborator/subproof.rs
index 6610d20..9f1076c 100644
--- a/carcara/src/elaborator/subproof.rs
+++ b/carcara/src/elaborator/subproof.rs
@@ -8,12 +8,12 @@ pub fn subproof(
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let unchanged = || Ok(Rc::new(ProofNode::Step(step.clone())));
 
-    let previous_step = &step.previous_step.as_ref().unwrap().as_step().unwrap();
-
-    let [previous] = previous_step.clause.as_slice() else {
+    let Some(previous_step) = &step.previous_step else {
+        return unchanged();
+    };
+    let ([previous], Some(last_term)) = (previous_step.clause(), step.clause.last()) else {
         return unchanged();
     };
-    let last_term = step.clause.last().unwrap();
     if last_term == previous {
         return unchanged();
     }
@@ -23,7 +23,7 @@ pub fn subproof(
         pool,
         previous.clone(),
         last_term.clone(),
-    );
+    )?;
     let equiv1_step = Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth: step.depth,
diff --git a/carcara/src/elaborator/tautology.rs b/carcara/src/elaborator/tautology.rs
index 41f4f97..41b2de4 100644
--- a/carcara/src/elaborator/tautology.rs
+++ b/carcara/src/elaborator/tautology.rs
@@ -6,18 +6,18 @@ pub fn ite_intro(
     _: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert_eq!(step.clause.len(), 1);
+    if step.clause.len() != 1 {
+        return Err(CheckerError::Unspecified);
+    }
     let mut ids = IdHelper::new(&step.id);
     let mut polyeq = Polyeq::new().mod_reordering(true);
     let (root_term, right_side) = match_term_err!((= t u) = &step.clause[0])?;
 
     if polyeq.eq(root_term, right_side) {
-        return Ok(
-            PolyeqElaborator::new(&mut ids, step.depth, false).elaborate(
-                pool,
-                root_term.clone(),
-                right_side.clone(),
-            ),
+        return PolyeqElaborator::new(&mut ids, step.depth, false).elaborate(
+            pool,
+            root_term.clone(),
+            right_side.clone(),
         );
     }
 
@@ -25,7 +25,7 @@ pub fn ite_intro(
 
     // Construct the expected right-hand side
     let expected_us = us[1..].iter().map(|u_i| {
-        let (cond, (a, b), (c, d)) = match_term!((ite cond (= a b) (= c d)) = u_i).unwrap();
+        let (cond, (a, b), (c, d)) = match_term_err!((ite cond (= a b) (= c d)) = u_i)?;
         let mut is_valid = |r_1, s_1, r_2, s_2| {
             // s_1 == s_2 == (ite cond r_1 r_2)
             if polyeq.eq(s_1, s_2) {
@@ -45,15 +45,18 @@ pub fn ite_intro(
         } else if is_valid(b, a, d, c) {
             [b, d]
         } else {
-            unreachable!()
+            return Err(CheckerError::Unspecified);
         };
 
         let s = build_term!(pool, (ite {cond.clone()} {r_1.clone()} {r_2.clone()}));
-        build_term!(pool, (ite {cond.clone()} (= {s.clone()} {r_1.clone()}) (= {s} {r_2.clone()})))
+        Ok(build_term!(
+            pool,
+            (ite {cond.clone()} (= {s.clone()} {r_1.clone()}) (= {s} {r_2.clone()}))
+        ))
     });
-    let expected_us: Vec<_> = std::iter::once(root_term.clone())
+    let expected_us: Vec<_> = std::iter::once(Ok(root_term.clone()))
         .chain(expected_us)
-        .collect();
+        .collect::<Result<_, CheckerError>>()?;
     let fixed_right_side = pool.add(Term::Op(Operator::And, expected_us));
 
     // If the right_side is already correct, we don't need to elaborate anything
@@ -72,7 +75,7 @@ pub fn ite_intro(
         pool,
         fixed_right_side.clone(),
         right_side.clone(),
-    );
+    )?;
     let trans_step = add_trans_step(pool, [new_ite_intro_step, polyeq_step], step.id.clone());
     Ok(trans_step)
 }
diff --git a/carcara/src/elaborator/transitivity.rs b/carcara/src/elaborator/transitivity.rs
index 8f9579b..5599b82 100644
--- a/carcara/src/elaborator/transitivity.rs
+++ b/carcara/src/elaborator/transitivity.rs
@@ -1,5 +1,5 @@
 use super::{add_symm_step, IdHelper};
-use crate::{ast::*, checker::error::CheckerError};
+use crate::{ast::*, checker::error::CheckerError, utils::DedupIterator};
 
 /// Similar to `find_chain`, but reorders a premises vector to match the found chain. In `trans`,
 /// this is used to reorder the step premises vector; in `eq_transitive`, it is used to reorder the
@@ -52,16 +52,15 @@ pub fn trans(
     _: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
-    assert_eq!(step.clause.len(), 1);
+    if step.clause.len() != 1 || step.premises.iter().any(|p| p.clause().len() != 1) {
+        return Err(CheckerError::Unspecified);
+    }
 
     let conclusion_equality = match_term_err!((= t u) = &step.clause[0])?;
     let mut premise_equalities: Vec<_> = step
         .premises
         .iter()
-        .map(|premise| {
-            assert_eq!(premise.clause().len(), 1);
-            match_term_err!((= t u) = &premise.clause()[0])
-        })
+        .map(|premise| match_term_err!((= t u) = &premise.clause()[0]))
         .collect::<Result<_, _>>()?;
 
     let mut new_premises = step.premises.clone();
@@ -71,6 +70,15 @@ pub fn trans(
         &mut new_premises,
     )?;
 
+    // If no premises are needed, the conclusion is trivial
+    if num_needed == 0 {
+        return Ok(Rc::new(ProofNode::Step(StepNode {
+            rule: "refl".to_owned(),
+            premises: Vec::new(),
+            ..step.clone()
+        })));
+    }
+
     // If there are any premises in the step which are not needed to complete the transitivity
     // chain, we simply remove them in the elaborated step.
     new_premises.truncate(num_needed);
@@ -94,7 +102,9 @@ pub fn eq_transitive(
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let n = step.clause.len();
-    assert!(n > 2);
+    if n < 3 {
+        return Err(CheckerError::Unspecified);
+    }
 
     // The last term in the conclusion clause should be an equality, and it will be the conclusion
     // of the transitive chain
@@ -118,6 +128,11 @@ pub fn eq_transitive(
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
 
+    // An `eq_transitive` step needs at least two premises
+    if num_needed < 2 {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
+
     for &i in &should_flip {
         new_clause[i] = if let Some((a, b)) = match_term!((not (= a b)) = &new_clause[i]) {
             build_term!(pool, (not (= {b.clone()} {a.clone()})))
@@ -126,6 +141,12 @@ pub fn eq_transitive(
         };
     }
 
+    // If there are repeated premises, they can't all be flipped by resolution
+    let has_repeated = |c: &[Rc<Term>]| c.iter().dedup().count() != c.len();
+    if !should_flip.is_empty() && (has_repeated(&step.clause) || has_repeated(&new_clause)) {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
+
     let not_needed = if num_needed == n - 1 {
         Vec::new()
     } else {
-- 
2.43.0


From dd06ed633928e8c2a3ed8edfeb3c6de14e64a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 67/98] fix: a discharged premise is the local command with
 exactly that id, if there is one

---
 carcara/src/parser/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 7603b1f..1883842 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1129,17 +1129,21 @@ impl<'a, R: BufRead> Parser<'a, R> {
     /// Due to a bug in veriT, commands local to the current subproof are passed by their "relative"
     /// id. That is, the command `t5.t4.h2` is passed as simply `h2`. This behavior is not present
     /// in other SMT solvers, like cvc5. To work around that, this function tries to find the
-    /// command considering both possibilities.
+    /// command considering both possibilities. If the current subproof has a command with exactly
+    /// the given id, it is preferred.
     fn parse_discharge_premise(&mut self, root_id: &str) -> CarcaraResult<(usize, usize)> {
         let position = self.current_position;
         let id = self.expect_symbol()?;
         let absolute_id = format!("{}.{}", root_id, &id);
         let id = HashCache::new(id);
         let absolute_id = HashCache::new(absolute_id);
-        self.state
-            .step_ids
-            .get_with_depth(&absolute_id)
-            .or_else(|| self.state.step_ids.get_with_depth(&id))
+        let step_ids = &self.state.step_ids;
+        let current_depth = step_ids.height() - 1;
+        step_ids
+            .get_with_depth(&id)
+            .filter(|(d, _)| *d == current_depth)
+            .or_else(|| step_ids.get_with_depth(&absolute_id))
+            .or_else(|| step_ids.get_with_depth(&id))
             .map(|(d, &i)| (d, i))
             .ok_or_else(|| Error::Parser(ParserError::UndefinedStepId(id.unwrap()), position))
     }
-- 
2.43.0


From b46dd79032cb0dc923a85f64c7fa6d9bee725636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 68/98] fix: the result of applying a substitution depended on
 the terms it was applied to before

---
 carcara/src/ast/substitution.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 273d937..2a2e88a 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -108,24 +108,12 @@ impl Substitution {
             return Err(SubstitutionError::DifferentSorts(x, t));
         }
 
-        // Introducing new mappings may invalidate previously defined cache entries. In particular,
-        // if a term contains `x` as a free variable, the result of applying the substitution to it
-        // may be different after adding the `x -> t` mapping, so we remove these cache entries.
-        self.cache.retain(|k, _| !pool.free_vars(k).contains(&x));
-
-        if let Some(should_be_renamed) = &mut self.should_be_renamed {
-            if x != t {
-                let free_vars = pool
-                    .free_vars(&t)
-                    .into_iter()
-                    .map(|v| v.as_var().unwrap().to_owned());
-                should_be_renamed.extend(free_vars);
-                if let Some(var) = x.as_var() {
-                    should_be_renamed.insert(var.to_owned());
-                }
-            }
-        }
-
+        // Introducing new mappings may invalidate previously defined cache entries. This is the case
+        // if a term contains `x` as a free variable, but also if it has bound variables that now
+        // need to be renamed. The result of applying a substitution should depend only on its
+        // mappings, so we must clear the cache even when the old result would be alpha-equivalent.
+        self.should_be_renamed = None;
+        self.cache.clear();
         self.map.insert(x, t);
         Ok(())
     }
-- 
2.43.0


From dbcfaf242a640ac54609f75b8bacae347758c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 69/98] fix: elaboration of equalities that appear in both
 directions, and of equalities inside contexts

---
 carcara/src/ast/context.rs             | 13 ++++++
 carcara/src/elaborator/congruence.rs   | 10 +++++
 carcara/src/elaborator/polyeq.rs       | 61 +++++++++++++++++++++++---
 carcara/src/elaborator/quantifiers.rs  |  9 ++--
 carcara/src/elaborator/reflexivity.rs  | 15 ++++---
 carcara/src/elaborator/transitivity.rs | 10 ++++-
 6 files changed, 98 insertions(+), 20 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 411c3fb..95621dd 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -99,6 +99,19 @@ impl ContextStack {
         }
     }
 
+    /// Creates a new stack with the same contexts as this one.
+    pub(crate) fn duplicate(&self) -> Self {
+        let mut new = Self::new();
+        for id in &self.stack {
+            let args = {
+                let guard = self.context_vec[*id].1.read().unwrap();
+                guard.as_ref().unwrap().args.clone()
+            };
+            new.push(&args);
+        }
+        new
+    }
+
     pub fn last_mut(&mut self) -> Option<RwLockWriteGuard<'_, Option<Context>>> {
         self.stack
             .last_mut()
diff --git a/carcara/src/elaborator/congruence.rs b/carcara/src/elaborator/congruence.rs
index fc04872..3208256 100644
--- a/carcara/src/elaborator/congruence.rs
+++ b/carcara/src/elaborator/congruence.rs
@@ -238,6 +238,16 @@ pub fn eq_congruent(
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
 
+    // If the clause has an equality both flipped and not flipped, the resolution steps below would
+    // confuse the two
+    let has_both = premises
+        .iter()
+        .zip(&flipped)
+        .any(|(&(u, t), flipped)| *flipped && premises.contains(&(t, u)));
+    if has_both {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
+
     // If there are any flipped premises, we need to change the `eq_congruent` step's conclusion to
     // fix them, and then reconstruct the original conclusion. The general idea is to, for each
     // flipped premise `(not (= u t))`, add an `eq_symmetric` step concluding `(= (= u t) (= t u))`,
diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index 2fd7889..46fc5dd 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -19,7 +19,13 @@ pub(super) struct PolyeqElaborator<'a> {
     root_depth: usize,
     cache: HashMapStack<(Rc<Term>, Rc<Term>), Rc<ProofNode>>,
     checker: Polyeq,
+
+    /// The contexts opened by this elaborator. This is only needed for alpha equivalence.
     context: Option<ContextStack>,
+
+    /// Like `context`, but also includes the contexts in which the elaborated steps will be
+    /// inserted.
+    full_context: Option<ContextStack>,
 }
 
 impl<'a> PolyeqElaborator<'a> {
@@ -33,6 +39,20 @@ impl<'a> PolyeqElaborator<'a> {
                 .mod_nary(true)
                 .alpha_equiv(is_alpha_equivalence),
             context: is_alpha_equivalence.then(ContextStack::new),
+            full_context: is_alpha_equivalence.then(ContextStack::new),
+        }
+    }
+
+    /// Like `new`, but for steps that will be inserted inside the given context.
+    pub fn new_inside(
+        context: &ContextStack,
+        id_helper: &'a mut IdHelper,
+        root_depth: usize,
+        is_alpha_equivalence: bool,
+    ) -> Self {
+        Self {
+            full_context: is_alpha_equivalence.then(|| context.duplicate()),
+            ..Self::new(id_helper, root_depth, is_alpha_equivalence)
         }
     }
 
@@ -124,6 +144,11 @@ impl<'a> PolyeqElaborator<'a> {
                             return Err(not_elaborated(&a, &b));
                         }
 
+                        // A repeated variable can't be renamed to two different names
+                        if a_bindings.iter().dedup().count() != a_bindings.len() {
+                            return Err(not_elaborated(&a, &b));
+                        }
+
                         let variable_args = a_bindings
                             .iter()
                             .chain(b_bindings)
@@ -141,6 +166,9 @@ impl<'a> PolyeqElaborator<'a> {
 
                         let args: Vec<_> = variable_args.chain(assign_args).collect();
                         c.push(&args);
+                        if let Some(c) = &mut self.full_context {
+                            c.push(&args);
+                        }
                         args
                     }
                 };
@@ -148,8 +176,10 @@ impl<'a> PolyeqElaborator<'a> {
                 self.open_subproof();
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
 
-                if let Some(c) = &mut self.context {
-                    c.pop();
+                for c in [&mut self.context, &mut self.full_context] {
+                    if let Some(c) = c {
+                        c.pop();
+                    }
                 }
                 let last_step = StepNode {
                     id: String::new(), // this will be overwritten later
@@ -172,6 +202,21 @@ impl<'a> PolyeqElaborator<'a> {
                     .map(|(name, value)| AnchorArg::Variable((name.clone(), pool.sort(value))))
                     .collect();
 
+                // The conclusion of the `bind_let` step is read with the bound variables in scope.
+                // If one of the values has a different variable with the same name, the step
+                // can't be written
+                for (_, value) in a_bindings.iter().chain(b_bindings) {
+                    let is_ambiguous = pool.free_vars(value).iter().any(|free| {
+                        let name = free.as_var().unwrap();
+                        a_bindings
+                            .iter()
+                            .any(|(n, v)| n == name && pool.sort(v) != pool.sort(free))
+                    });
+                    if is_ambiguous {
+                        return Err(not_elaborated(&a, &b));
+                    }
+                }
+
                 // The values of the binding lists in the `let` terms may not be syntactically
                 // identical, in which case we need to prove their equality so the `bind_let` step
                 // is valid.
@@ -210,12 +255,14 @@ impl<'a> PolyeqElaborator<'a> {
         self.root_depth + self.cache.height() - 1
     }
 
-    /// Returns `true` if the terms are directly equal, modulo application of the current context.
+    /// Returns `true` if the terms are directly equal, modulo application of the context. This means
+    /// that a `refl` step can prove their equality.
     fn directly_eq(&mut self, pool: &mut PrimitivePool, a: &Rc<Term>, b: &Rc<Term>) -> bool {
-        match &mut self.context {
-            Some(c) => c.apply(pool, a) == *b,
-            None => a == b,
-        }
+        a == b
+            || match &mut self.full_context {
+                Some(c) => c.apply(pool, a) == *b,
+                None => false,
+            }
     }
 
     /// Returns `true` if the terms are equal modulo reordering of inequalities, and modulo
diff --git a/carcara/src/elaborator/quantifiers.rs b/carcara/src/elaborator/quantifiers.rs
index 94d126c..1eaa14c 100644
--- a/carcara/src/elaborator/quantifiers.rs
+++ b/carcara/src/elaborator/quantifiers.rs
@@ -4,7 +4,7 @@ use indexmap::IndexMap;
 
 pub fn forall_inst(
     pool: &mut PrimitivePool,
-    _: &mut ContextStack,
+    context: &mut ContextStack,
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
     if step.clause.len() != 1 {
@@ -57,11 +57,8 @@ pub fn forall_inst(
     let polyeq_step = {
         let is_alpha_equivalence = !Polyeq::new().mod_reordering(true).eq(&p, p_prime);
 
-        PolyeqElaborator::new(&mut ids, step.depth, is_alpha_equivalence).elaborate(
-            pool,
-            p.clone(),
-            p_prime.clone(),
-        )?
+        PolyeqElaborator::new_inside(context, &mut ids, step.depth, is_alpha_equivalence)
+            .elaborate(pool, p.clone(), p_prime.clone())?
     };
 
     let or_term = build_term!(pool, (or (not {quantified.clone()}) {p.clone()}));
diff --git a/carcara/src/elaborator/reflexivity.rs b/carcara/src/elaborator/reflexivity.rs
index 82747de..90da279 100644
--- a/carcara/src/elaborator/reflexivity.rs
+++ b/carcara/src/elaborator/reflexivity.rs
@@ -14,13 +14,18 @@ fn alpha_equiv(a: &Rc<Term>, b: &Rc<Term>) -> bool {
 
 fn elaborate_equality(
     pool: &mut PrimitivePool,
+    context: &ContextStack,
     l: &Rc<Term>,
     r: &Rc<Term>,
     ids: &mut IdHelper,
     depth: usize,
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let is_alpha_equivalence = !polyeq(l, r);
-    PolyeqElaborator::new(ids, depth, is_alpha_equivalence).elaborate(pool, l.clone(), r.clone())
+    PolyeqElaborator::new_inside(context, ids, depth, is_alpha_equivalence).elaborate(
+        pool,
+        l.clone(),
+        r.clone(),
+    )
 }
 
 pub fn refl(
@@ -82,22 +87,22 @@ pub fn refl(
     // cases
     if alpha_equiv(left, right) {
         // First, the case where no context application is needed, only polyequality reasoning
-        elaborate_equality(pool, left, right, &mut ids, depth)
+        elaborate_equality(pool, context, left, right, &mut ids, depth)
     } else if alpha_equiv(&new_left, right) {
         // Next, the one where we only need to apply the context on the left
         let left_refl = add_refl_step(pool, left.clone(), new_left.clone(), ids.next_id(), depth);
-        let polyeq = elaborate_equality(pool, &new_left, right, &mut ids, depth)?;
+        let polyeq = elaborate_equality(pool, context, &new_left, right, &mut ids, depth)?;
         Ok(add_trans_step(pool, [left_refl, polyeq], step.id.clone()))
     } else if alpha_equiv(left, &new_right) {
         // Next, when we need to apply the context on the right
-        let polyeq = elaborate_equality(pool, left, &new_right, &mut ids, depth)?;
+        let polyeq = elaborate_equality(pool, context, left, &new_right, &mut ids, depth)?;
         let right_refl = add_refl_step(pool, right.clone(), new_right, ids.next_id(), depth);
         let right_symm = add_symm_step(pool, &right_refl, ids.next_id());
         Ok(add_trans_step(pool, [polyeq, right_symm], step.id.clone()))
     } else if alpha_equiv(&new_left, &new_right) {
         // And finally, the case where we need to apply it to both sides
         let left_refl = add_refl_step(pool, left.clone(), new_left.clone(), ids.next_id(), depth);
-        let polyeq = elaborate_equality(pool, &new_left, &new_right, &mut ids, depth)?;
+        let polyeq = elaborate_equality(pool, context, &new_left, &new_right, &mut ids, depth)?;
         let right_refl = add_refl_step(pool, right.clone(), new_right, ids.next_id(), depth);
         let right_symm = add_symm_step(pool, &right_refl, ids.next_id());
         Ok(add_trans_step(
diff --git a/carcara/src/elaborator/transitivity.rs b/carcara/src/elaborator/transitivity.rs
index 5599b82..873178a 100644
--- a/carcara/src/elaborator/transitivity.rs
+++ b/carcara/src/elaborator/transitivity.rs
@@ -141,9 +141,15 @@ pub fn eq_transitive(
         };
     }
 
-    // If there are repeated premises, they can't all be flipped by resolution
+    // If there are repeated premises, or if an equality appears both flipped and not flipped, the
+    // premises can't all be flipped by resolution
     let has_repeated = |c: &[Rc<Term>]| c.iter().dedup().count() != c.len();
-    if !should_flip.is_empty() && (has_repeated(&step.clause) || has_repeated(&new_clause)) {
+    let has_both = should_flip
+        .iter()
+        .any(|&i| step.clause[..n - 1].contains(&new_clause[i]));
+    if !should_flip.is_empty()
+        && (has_both || has_repeated(&step.clause) || has_repeated(&new_clause))
+    {
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
 
-- 
2.43.0


From d084a762534707a4885f2c378e1f72a6060ee024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 70/98] fix: slicing of proofs with repeated ids, diamonds,
 late assumptions and nested closing steps

---
 carcara/src/slice.rs | 160 ++++++++++++++++++++++++-------------------
 1 file changed, 91 insertions(+), 69 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 31f46bf..6628279 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -1,19 +1,36 @@
 //! Backend of the slice command.
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 
 use crate::ast::{PrimitivePool, Proof, ProofCommand, ProofStep, Rc, Subproof, Term, TermPool};
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum PremiseType {
     Discharge,
     Premise,
     SubproofEnd,
 }
-/// Creates a map whose keys are step IDs in the proof until the conclusion of the outermost subproof of the target step
-/// whose values are vectors containing the IDs of those steps' premises.
+
+/// Identifies a command of a proof. The ids of the commands can't be used for this, since commands in
+/// different subproofs may have the same id.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+struct Key(*const ProofCommand);
+
+impl Key {
+    /// The key of a command. A subproof has the same key as the step that ends it.
+    fn of(mut command: &ProofCommand) -> Self {
+        while let ProofCommand::Subproof(s) = command {
+            command = s.commands.last().unwrap();
+        }
+        Self(command)
+    }
+}
+
+/// Creates a map whose keys are the steps in the proof until the conclusion of the outermost subproof of the target step
+/// whose values are vectors containing those steps' premises.
 fn get_step_to_premises(
     proof: &Proof,
-    target_step: &str,
-) -> HashMap<String, Vec<(String, PremiseType)>> {
+    target_step: Key,
+) -> HashMap<Key, Vec<(Key, PremiseType)>> {
     let mut map = HashMap::new();
     let mut iter = proof.iter();
     let mut num_open_subproofs: usize = 0;
@@ -26,30 +43,30 @@ fn get_step_to_premises(
             continue;
         };
 
-        if command.id() == target_step {
+        if Key::of(command) == target_step {
             found_target = true;
         }
 
-        let mut premises: Vec<(String, PremiseType)> = step
+        let mut premises: Vec<(Key, PremiseType)> = step
             .premises
             .iter()
-            .map(|p| (iter.get_premise(*p).id().to_owned(), PremiseType::Premise))
+            .map(|p| (Key::of(iter.get_premise(*p)), PremiseType::Premise))
             .collect();
 
-        let mut discharge: Vec<(String, PremiseType)> = step
+        let mut discharge: Vec<(Key, PremiseType)> = step
             .discharge
             .iter()
-            .map(|p| (iter.get_premise(*p).id().to_owned(), PremiseType::Discharge))
+            .map(|p| (Key::of(iter.get_premise(*p)), PremiseType::Discharge))
             .collect();
 
         premises.append(&mut discharge);
 
         if iter.is_end_step() {
             let previous = iter.current_subproof().unwrap().iter().nth_back(1).unwrap();
-            premises.push((previous.id().to_owned(), PremiseType::SubproofEnd));
+            premises.push((Key::of(previous), PremiseType::SubproofEnd));
             num_open_subproofs -= 1;
         }
-        map.insert(step.id.clone(), premises);
+        map.insert(Key::of(command), premises);
 
         if found_target && num_open_subproofs == 0 {
             break;
@@ -58,33 +75,37 @@ fn get_step_to_premises(
     map
 }
 
-/// Produces a map containing all the ids of the transitive premises of the input step and
-/// bools denoting whether we need the premises of those premises.
+/// Produces a map containing all the transitive premises of the input step and bools denoting whether we
+/// need the premises of those premises.
 fn get_transitive_premises(
-    step_id: String,
-    step_to_premises: &HashMap<String, Vec<(String, PremiseType)>>,
+    step: Key,
+    step_to_premises: &HashMap<Key, Vec<(Key, PremiseType)>>,
     max_distance: usize,
-) -> HashMap<String, bool> {
+) -> HashMap<Key, bool> {
     // Items to process in BFS
-    let mut queue: VecDeque<(String, usize)> = VecDeque::new();
+    let mut queue: VecDeque<(Key, usize)> = VecDeque::new();
 
     // Output
-    let mut id_to_keep_premises: HashMap<String, bool> = HashMap::new();
-
-    queue.push_back((step_id, max_distance + 1)); // Different use of distance than in interface. Here it is the number of steps to include after this one
-    while let Some((step_id, d)) = queue.pop_front() {
+    let mut keep_premises: HashMap<Key, bool> = HashMap::new();
+
+    // Different use of distance than in interface. Here it is the number of steps to include after this one
+    queue.push_back((step, max_distance.saturating_add(1)));
+    while let Some((step, d)) = queue.pop_front() {
+        // Steps are visited in order of their distance, so we only need to consider the first time
+        // that we see each one of them
+        if keep_premises.contains_key(&step) {
+            continue;
+        }
         let last = d == 0;
-        // We should always default to needing premises if there's a conflict between what's already in the map and what would be added.
-        let keep_premises = !last || *id_to_keep_premises.get(&step_id).unwrap_or(&false);
-        id_to_keep_premises.insert(step_id.clone(), keep_premises);
+        keep_premises.insert(step, !last);
         if !last {
-            for (premise, _) in step_to_premises.get(&step_id).unwrap_or(&Vec::new()) {
-                queue.push_back((premise.to_owned(), d - 1));
+            for (premise, _) in step_to_premises.get(&step).unwrap_or(&Vec::new()) {
+                queue.push_back((*premise, d - 1));
             }
         }
     }
 
-    id_to_keep_premises
+    keep_premises
 }
 
 #[derive(Debug)]
@@ -133,13 +154,14 @@ fn get_slice_body(
 
     let from_step = from_step?;
 
-    let id_to_premise_ids = get_step_to_premises(proof, id);
+    let target = Key::of(from_step);
+
+    let step_to_premises = get_step_to_premises(proof, target);
 
-    let mut to_keep =
-        get_transitive_premises(from_step.id().to_owned(), &id_to_premise_ids, max_distance);
+    let mut to_keep = get_transitive_premises(target, &step_to_premises, max_distance);
 
-    // A map of IDs to their positions in the new proof.
-    let mut id_to_index: HashMap<String, (usize, usize)> = HashMap::new();
+    // A map of commands to their positions in the new proof.
+    let mut new_index: HashMap<Key, (usize, usize)> = HashMap::new();
 
     match from_step {
         ProofCommand::Assume { .. } => return None, // We can't slice an assume
@@ -149,20 +171,19 @@ fn get_slice_body(
                 // Get assumes
                 for command in &sp.commands {
                     if command.is_assume() {
-                        to_keep.insert(command.id().to_owned(), false);
-                    } else {
-                        break;
+                        to_keep.insert(Key::of(command), false);
                     }
                 }
                 // Get second to last step
                 let penult = &sp.commands[sp.commands.len() - 2];
-                if !to_keep.contains_key(penult.id()) {
-                    to_keep.insert(penult.id().to_owned(), false);
-                }
+                to_keep.entry(Key::of(penult)).or_insert(false);
 
                 // Get last step
-                let ult = &sp.commands[sp.commands.len() - 1];
-                to_keep.insert(ult.id().to_owned(), true); // We always need the "premises" of the last step of a subproof
+                let ult = Key::of(&sp.commands[sp.commands.len() - 1]);
+                to_keep.insert(ult, true); // We always need the "premises" of the last step of a subproof
+                for (premise, _) in &step_to_premises[&ult] {
+                    to_keep.entry(*premise).or_insert(false);
+                }
             }
         }
     };
@@ -182,7 +203,7 @@ fn get_slice_body(
     let mut child: Option<(usize, usize)> = None;
     while let Some(command) = copy_iter.next() {
         // Check if we want to copy this command
-        if let Some(&need_premises) = to_keep.get(command.id()) {
+        if let Some(&need_premises) = to_keep.get(&Key::of(command)) {
             let stack_len = stack.len();
             match command {
                 // If the command is an assume, just copy it without change.
@@ -192,13 +213,13 @@ fn get_slice_body(
                     stack[stack_len - 1].current_position += 1;
 
                     // Associate the ID of this assume with its new location in the proof.
-                    id_to_index.insert(command.id().to_owned(), last_placed);
+                    new_index.insert(Key::of(command), last_placed);
                 }
                 // If the command is a step and we need its premises, copy it with its original rule and
                 // the new locations of its premises. Otherwise, use a trust hole.
                 ProofCommand::Step(proof_step) => {
                     // Make a note once we have encountered the target step so that we know we're no longer on premises
-                    if proof_step.id == id {
+                    if Key::of(command) == target {
                         have_seen_target = true;
                     }
 
@@ -207,27 +228,21 @@ fn get_slice_body(
                             .current_subproof()
                             .expect("is_in_subproof is true, but current_subproof() is None");
                         let penult = &current_subproof[current_subproof.len() - 2];
-                        proof_step.id == penult.id()
+                        Key::of(command) == Key::of(penult)
                     };
 
                     let step = if need_premises {
-                        let (premises, discharge) =
-                            if let Some(premise_ids) = id_to_premise_ids.get(command.id()) {
-                                (
-                                    premise_ids
-                                        .iter()
-                                        .filter(|(_, t)| matches!(t, PremiseType::Premise))
-                                        .map(|(s, _)| id_to_index[s])
-                                        .collect(),
-                                    proof_step.discharge.clone(),
-                                )
-                            } else {
-                                (Vec::new(), Vec::new())
-                            };
+                        let new_indices = |ty: PremiseType| {
+                            step_to_premises[&Key::of(command)]
+                                .iter()
+                                .filter(|(_, t)| *t == ty)
+                                .map(|(s, _)| new_index[s])
+                                .collect()
+                        };
 
                         ProofStep {
-                            premises,
-                            discharge,
+                            premises: new_indices(PremiseType::Premise),
+                            discharge: new_indices(PremiseType::Discharge),
                             ..proof_step.clone()
                         }
                     } else {
@@ -250,13 +265,11 @@ fn get_slice_body(
 
                     // Associate the ID of this step with its new location in the proof.
                     let last_placed = (stack.len() - 1, stack[stack.len() - 1].current_position);
-                    if !id_to_index.contains_key(command.id()) {
-                        id_to_index.insert(command.id().to_owned(), last_placed);
-                    }
+                    new_index.entry(Key::of(command)).or_insert(last_placed);
 
                     // We need to artificially make the step we're slicing a transitive premise of any steps that occur after it,
                     // i.e., any steps we keep from its enclosing subproofs
-                    if proof_step.id == id {
+                    if Key::of(command) == target {
                         child = Some(last_placed);
                     }
 
@@ -295,7 +308,7 @@ fn get_slice_body(
                         // Associate ID with location in new proof.
                         let last_placed =
                             (stack.len() - 1, stack[stack.len() - 1].current_position);
-                        id_to_index.insert(command.id().to_owned(), last_placed);
+                        new_index.insert(Key::of(command), last_placed);
 
                         // Push fresh frame to stack to keep track of subproof commands.
                         stack[stack_len - 1].current_position += 1;
@@ -309,9 +322,19 @@ fn get_slice_body(
         }
     }
 
+    // The id of the last step must be different from the ids of all the others
+    let ids: HashSet<&str> = {
+        let mut iter = proof.iter();
+        std::iter::from_fn(|| iter.next().map(ProofCommand::id)).collect()
+    };
+    let mut end_id = "slice_end".to_owned();
+    while ids.contains(end_id.as_str()) {
+        end_id.push('\'');
+    }
+
     // The last step of the proof concludes (cl) using the rule hole and the argument "trust"
     let end_step: ProofStep = ProofStep {
-        id: "slice_end".to_owned(),
+        id: end_id,
         clause: Vec::new(),
         rule: "hole".to_owned(),
         premises: vec![child.unwrap()],
@@ -344,9 +367,8 @@ pub fn slice(
     let mut asserts = Vec::new();
 
     for command in &new_proof.commands {
-        match command {
-            ProofCommand::Assume { term, .. } => asserts.push(term.clone()),
-            _ => break,
+        if let ProofCommand::Assume { term, .. } = command {
+            asserts.push(term.clone());
         }
     }
 
-- 
2.43.0


From 2697e6f81d9968c98961e1e173c02c251e88827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 71/98] fix: uncrowding panicked on crowding literals that are
 not eliminated

---
 carcara/src/elaborator/uncrowding.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 7d922e4..2be0fa8 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -368,7 +368,8 @@ fn reorder_premises<'a>(
         v
     };
     for (lit, info) in ordered {
-        if !info.is_crowding {
+        // If a literal is not eliminated after it is last included, there is nothing to move
+        if !info.is_crowding || info.eliminator == 0 {
             continue;
         }
 
-- 
2.43.0


From c879f15f28c1a32e8aa473d103bd86da3b5f63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 72/98] fix: elaboration of unary xor, and of nested
 conjunctions and disjunctions

---
 carcara/src/checker/rules/clausification.rs | 3 ++-
 carcara/src/checker/rules/simplification.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/clausification.rs b/carcara/src/checker/rules/clausification.rs
index fffe7bc..be9b6c7 100644
--- a/carcara/src/checker/rules/clausification.rs
+++ b/carcara/src/checker/rules/clausification.rs
@@ -232,7 +232,8 @@ pub(crate) fn nary_expansion(
 
     let (op, args) = match term.as_ref() {
         Term::Op(op, args)
-            if args.len() >= 2 && !matches!(op, Operator::And | Operator::Or) =>
+            if (args.len() >= 2 && !matches!(op, Operator::And | Operator::Or))
+                || *op == Operator::Xor =>
         {
             (*op, args)
         }
diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 8a6dfe9..e7fe499 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -198,7 +198,14 @@ fn generic_and_or_simplify(
     // If we encounter this, we remove the outer application
     if phis.len() == 1 {
         match phis[0].as_ref() {
-            Term::Op(op, args) if *op == rule_kind => phis = args.clone(),
+            Term::Op(op, args) if *op == rule_kind => {
+                phis = args.clone();
+
+                // It may be that only the outer application was removed
+                if result_args == phis {
+                    return Ok(());
+                }
+            }
             _ => (),
         }
     }
-- 
2.43.0


From 0dbae481ce467afb28239a8ab485a97480423b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 73/98] fix: alpha-equivalence elaboration for permuted,
 clashing and shadowed variables

---
 carcara/src/elaborator/polyeq.rs | 121 +++++++++++++++++++++++++++++--
 1 file changed, 115 insertions(+), 6 deletions(-)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index 46fc5dd..cc16074 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -5,6 +5,7 @@ use crate::{
     utils::{DedupIterator, HashMapStack},
 };
 use indexmap::IndexMap;
+use std::collections::HashSet;
 
 /// The result of elaborating a polyequality. If it can't be elaborated, this is an error describing
 /// why.
@@ -20,6 +21,9 @@ pub(super) struct PolyeqElaborator<'a> {
     cache: HashMapStack<(Rc<Term>, Rc<Term>), Rc<ProofNode>>,
     checker: Polyeq,
 
+    /// The variables introduced in each of the currently open subproofs.
+    open_bindings: Vec<HashSet<String>>,
+
     /// The contexts opened by this elaborator. This is only needed for alpha equivalence.
     context: Option<ContextStack>,
 
@@ -28,12 +32,62 @@ pub(super) struct PolyeqElaborator<'a> {
     full_context: Option<ContextStack>,
 }
 
+/// Renames the variables bound by the binder term `b` such that they are different from the ones
+/// bound by `a`.
+fn rename_bindings(
+    pool: &mut PrimitivePool,
+    a: &Rc<Term>,
+    b: &Rc<Term>,
+) -> Option<Rc<Term>> {
+    let (_, a_bindings, a_inner) = a.as_binder()?;
+    let (binder, b_bindings, b_inner) = b.as_binder()?;
+
+    for bindings in [a_bindings, b_bindings] {
+        let names: HashSet<_> = bindings.iter().map(|(name, _)| name).collect();
+        if names.len() != bindings.len() {
+            return None;
+        }
+    }
+
+    let free_vars = pool.free_vars(b);
+    let is_free = |name| free_vars.iter().any(|v| v.as_var() == Some(name));
+    if b_bindings.iter().any(|(name, _)| is_free(name)) {
+        return None;
+    }
+
+    let mut used: HashSet<String> = a_bindings
+        .iter()
+        .chain(b_bindings)
+        .map(|(name, _)| name.clone())
+        .collect();
+    for inner in [a_inner, b_inner] {
+        let free_vars = pool.free_vars(inner);
+        used.extend(free_vars.iter().map(|v| v.as_var().unwrap().to_owned()));
+    }
+
+    let mut new_bindings = Vec::new();
+    let mut map = IndexMap::new();
+    for (name, sort) in b_bindings {
+        let mut new_name = format!("{name}'");
+        while !used.insert(new_name.clone()) {
+            new_name.push('\'');
+        }
+        let old = pool.add(Term::new_var(name, sort.clone()));
+        let new = pool.add(Term::new_var(&new_name, sort.clone()));
+        new_bindings.push((new_name, sort.clone()));
+        map.insert(old, new);
+    }
+    let new_inner = Substitution::new(pool, map).ok()?.apply(pool, b_inner);
+    Some(pool.add(Term::Binder(binder, BindingList(new_bindings), new_inner)))
+}
+
 impl<'a> PolyeqElaborator<'a> {
     pub fn new(id_helper: &'a mut IdHelper, root_depth: usize, is_alpha_equivalence: bool) -> Self {
         Self {
             ids: id_helper,
             root_depth,
             cache: HashMapStack::new(),
+            open_bindings: Vec::new(),
             checker: Polyeq::new()
                 .mod_reordering(true)
                 .mod_nary(true)
@@ -65,8 +119,10 @@ impl<'a> PolyeqElaborator<'a> {
         b: Rc<Term>,
     ) -> PolyeqResult {
         let key = (a, b);
-        if let Some(p) = self.cache.get(&key) {
-            return Ok(p.clone());
+        if let Some(p) = self.cache.get(&key).cloned() {
+            if !self.is_shadowed(pool, &key, p.depth()) {
+                return Ok(p);
+            }
         }
         // We have to do this to avoid moving `a` and `b` when calling `self.cache.get`
         let (a, b) = key.clone();
@@ -145,10 +201,38 @@ impl<'a> PolyeqElaborator<'a> {
                         }
 
                         // A repeated variable can't be renamed to two different names
-                        if a_bindings.iter().dedup().count() != a_bindings.len() {
+                        if [a_bindings, b_bindings]
+                            .iter()
+                            .any(|bindings| bindings.iter().dedup().count() != bindings.len())
+                        {
                             return Err(not_elaborated(&a, &b));
                         }
 
+                        // If some variables only change places, have the same name but different
+                        // sorts, or would capture other variables, we must first rename them to
+                        // something else
+                        let is_ambiguous = a_bindings
+                            .iter()
+                            .any(|x| b_bindings.iter().any(|y| x.0 == y.0 && x.1 != y.1));
+                        let is_permuted = a_bindings
+                            .iter()
+                            .zip(b_bindings)
+                            .any(|(x, y)| x != y && b_bindings.contains(x));
+                        let is_capturing = {
+                            let free_vars = pool.free_vars(&a);
+                            let is_free = |name| free_vars.iter().any(|v| v.as_var() == Some(name));
+                            b_bindings.iter().any(|(name, _)| is_free(name))
+                        };
+                        if is_ambiguous || is_permuted || is_capturing {
+                            let middle = rename_bindings(pool, &a, &b)
+                                .ok_or_else(|| not_elaborated(&a, &b))?;
+                            let steps = vec![
+                                self.elaborate(pool, a.clone(), middle.clone())?,
+                                self.elaborate(pool, middle, b.clone())?,
+                            ];
+                            return self.chain(pool, steps);
+                        }
+
                         let variable_args = a_bindings
                             .iter()
                             .chain(b_bindings)
@@ -173,7 +257,7 @@ impl<'a> PolyeqElaborator<'a> {
                     }
                 };
 
-                self.open_subproof();
+                self.open_subproof(&args);
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
 
                 for c in [&mut self.context, &mut self.full_context] {
@@ -231,7 +315,7 @@ impl<'a> PolyeqElaborator<'a> {
                     }
                 }
 
-                self.open_subproof();
+                self.open_subproof(&args);
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
                 let last_step = StepNode {
                     id: String::new(), // this will be overwritten later
@@ -251,6 +335,25 @@ impl<'a> PolyeqElaborator<'a> {
         }
     }
 
+    /// Returns `true` if a variable that appears in these terms is rebound in a subproof that is
+    /// deeper than `depth`. In this case, what was derived in that depth can't be used anymore.
+    fn is_shadowed(
+        &self,
+        pool: &mut PrimitivePool,
+        (a, b): &(Rc<Term>, Rc<Term>),
+        depth: usize,
+    ) -> bool {
+        let scopes = &self.open_bindings[depth - self.root_depth..];
+        !scopes.is_empty()
+            && [a, b].into_iter().any(|t| {
+                let free_vars = pool.free_vars(t);
+                free_vars.iter().any(|v| {
+                    let name = v.as_var().unwrap();
+                    scopes.iter().any(|scope| scope.contains(name))
+                })
+            })
+    }
+
     fn depth(&mut self) -> usize {
         self.root_depth + self.cache.height() - 1
     }
@@ -399,7 +502,11 @@ impl<'a> PolyeqElaborator<'a> {
         Ok(add_trans_step(pool, [cong_step, equiv_step], id))
     }
 
-    fn open_subproof(&mut self) {
+    fn open_subproof(&mut self, args: &[AnchorArg]) {
+        let bindings = args.iter().map(|arg| match arg {
+            AnchorArg::Variable((name, _)) | AnchorArg::Assign((name, _), _) => name.clone(),
+        });
+        self.open_bindings.push(bindings.collect());
         self.cache.push_scope();
         self.ids.push();
     }
@@ -410,6 +517,7 @@ impl<'a> PolyeqElaborator<'a> {
         mut last_step: StepNode,
         outbound_premises: Vec<Rc<ProofNode>>,
     ) -> Rc<ProofNode> {
+        self.open_bindings.pop();
         self.cache.pop_scope();
         self.ids.pop();
 
@@ -464,6 +572,7 @@ impl<'a> PolyeqElaborator<'a> {
                 Operator::Or => "or_simplify",
                 Operator::Add => "sum_simplify",
                 Operator::Mult => "prod_simplify",
+                Operator::Xor => "nary_elim",
                 _ => continue,
             };
             let is_equal = if flipped {
-- 
2.43.0


From ca0af51c596d708f3983c329fe1dca35ed47273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 74/98] fix: asserted terms must be of sort Bool

---
 carcara/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 1883842..32178b7 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -845,13 +845,14 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     self.state.sort_defs.insert(name, def);
                 }
                 Token::ReservedWord(Reserved::Assert) => {
-                    let term = self.parse_term()?;
+                    let term = self.parse_term_expecting_sort(&Sort::Bool)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().insert(term);
                 }
                 Token::ReservedWord(Reserved::CheckSatAssuming) => {
                     self.expect_token(Token::OpenParen)?;
-                    let terms = self.parse_sequence(Self::parse_term, true)?;
+                    let terms =
+                        self.parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().extend(terms);
                 }
-- 
2.43.0


From dfcab62ad576eae414d378c9a77193e562a82798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 75/98] fix: polymorphic arguments of defined functions are
 refused, not a panic

---
 carcara/src/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 32178b7..c15f0f3 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -117,8 +117,16 @@ impl FunctionDef {
             return Ok(self.body.clone());
         }
 
+        // The sorts must be the same: a polymorphic argument can not take the place of a parameter
         for (arg, param) in args.iter().zip(self.params.iter()) {
-            SortError::assert_eq(param.1.as_sort().unwrap(), p.sort(arg).as_sort().unwrap())?;
+            let sort = p.sort(arg);
+            SortError::assert_eq(param.1.as_sort().unwrap(), sort.as_sort().unwrap())?;
+            if sort != param.1 {
+                return Err(ParserError::SortError(SortError {
+                    expected: vec![param.1.as_sort().unwrap().clone()].into_boxed_slice(),
+                    got: sort.as_sort().unwrap().clone(),
+                }));
+            }
         }
 
         // Build a hash map of all the parameter names and the values they will
-- 
2.43.0


From f351bbd38455b5f51acc8b76c0508939207ffaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 76/98] fix: only binary divisions of literals are rational
 literals

---
 carcara/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index c15f0f3..aca8597 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -374,8 +374,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     SortError::assert_all_eq(&sorts)?;
                 }
 
-                if let Some(r) = self.interpret_div_as_real_lit(&args[0], &args[1]) {
-                    return Ok(r);
+                if let [a, b] = args.as_slice() {
+                    if let Some(r) = self.interpret_div_as_real_lit(a, b) {
+                        return Ok(r);
+                    }
                 }
             }
             Operator::Mod => {
-- 
2.43.0


From 7b19d3b079ec570117e58bcc638ea6dc85047d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 77/98] fix: parameters of sort definitions shadow other sorts,
 and do not capture them

---
 carcara/src/parser/mod.rs | 42 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index aca8597..0d32635 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -150,7 +150,8 @@ impl FunctionDef {
 /// A sort definition, from a `define-sort` command.
 #[derive(Debug)]
 struct SortDef {
-    params: Vec<String>,
+    /// The sorts that stand for the parameters in the body of the definition.
+    params: Vec<Rc<Term>>,
     body: Rc<Term>,
 }
 
@@ -164,6 +165,8 @@ struct ParserState {
     function_defs: IndexMap<String, FunctionDef>,
     sort_declarations: HashMapStack<String, usize>,
     sort_defs: IndexMap<String, SortDef>,
+    /// The parameters of the sort definition that is currently being parsed.
+    sort_params: IndexMap<String, Rc<Term>>,
     step_ids: HashMapStack<HashCache<String>, usize>,
 }
 
@@ -1368,16 +1371,19 @@ impl<'a, R: BufRead> Parser<'a, R> {
     fn parse_define_sort(&mut self) -> CarcaraResult<(String, SortDef)> {
         let name = self.expect_symbol()?;
         self.expect_token(Token::OpenParen)?;
-        let params = self.parse_sequence(Self::expect_symbol, false)?;
+        let names = self.parse_sequence(Self::expect_symbol, false)?;
 
-        // In order to correctly parse the sort definition, we push a new scope to the sort
-        // declarations table and add the sort parameters to it.
-        self.state.sort_declarations.push_scope();
-        for s in &params {
-            self.state.sort_declarations.insert(s.clone(), 0);
-        }
+        // While parsing the body of the definition, the parameters shadow any other sort of the same
+        // name. These other sorts may still appear in the body, by means of previous definitions, so
+        // we represent the parameters by sorts that cannot be declared by the user.
+        let params: Vec<_> = names
+            .iter()
+            .map(|s| Sort::Atom(format!("|{}|", s).into_boxed_str(), Box::new([])))
+            .map(|s| self.pool.add(Term::Sort(s)))
+            .collect();
+        self.state.sort_params = names.into_iter().zip(params.iter().cloned()).collect();
         let body = self.parse_sort(false)?;
-        self.state.sort_declarations.pop_scope();
+        self.state.sort_params.clear();
 
         self.expect_token(Token::CloseParen)?;
 
@@ -1950,6 +1956,13 @@ impl<'a, R: BufRead> Parser<'a, R> {
         args: Vec<Rc<Term>>,
         polymorphic: bool,
     ) -> Result<Rc<Term>, ParserError> {
+        if let Some(param) = self.state.sort_params.get(&name) {
+            return if args.is_empty() {
+                Ok(param.clone())
+            } else {
+                Err(ParserError::WrongNumberOfArgs(0.into(), args.len()))
+            };
+        }
         let sort = match name.as_str() {
             "Bool" | "Int" | "Real" | "String" | "RegLan" if !args.is_empty() => {
                 Err(ParserError::WrongNumberOfArgs(0.into(), args.len()))
@@ -1981,16 +1994,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 } else if def.params.is_empty() {
                     Ok(def.body.clone())
                 } else {
-                    let substitution = def
-                        .params
-                        .iter()
-                        .cloned()
-                        .map(|name| {
-                            self.pool
-                                .add(Term::Sort(Sort::Atom(name.into_boxed_str(), Box::new([]))))
-                        })
-                        .zip(args)
-                        .collect();
+                    let substitution = def.params.iter().cloned().zip(args).collect();
 
                     let result = Substitution::new(self.pool, substitution)
                         .unwrap()
-- 
2.43.0


From 357884d712eef9f3c260844322d2a76e82af9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 78/98] fix: capture by definitions is checked for duplicate
 variables, and names in definition bodies

---
 carcara/src/parser/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 0d32635..fa65ce7 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1473,6 +1473,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
     /// already consumed.
     fn parse_binder(&mut self, binder: Binder) -> CarcaraResult<Rc<Term>> {
         self.expect_token(Token::OpenParen)?;
+        let height = self.state.symbol_table.height();
         self.state.symbol_table.push_scope();
         let bindings = if binder == Binder::Choice {
             let var = self.parse_sorted_var()?;
@@ -1483,6 +1484,13 @@ impl<'a, R: BufRead> Parser<'a, R> {
             BindingList(self.parse_sequence(
                 |p| {
                     let var = p.parse_sorted_var()?;
+
+                    // If a variable has the same name as a previous one, it shadows it
+                    let cached = HashCache::new(var.0.clone());
+                    let table = &mut p.state.symbol_table;
+                    if table.get_with_depth(&cached).is_some_and(|(d, _)| d >= height) {
+                        table.push_scope();
+                    }
                     p.insert_sorted_var(var.clone());
                     Ok(var)
                 },
@@ -1493,7 +1501,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
             Binder::Lambda => self.parse_term()?,
             _ => self.parse_term_expecting_sort(&Sort::Bool)?,
         };
-        self.state.symbol_table.pop_scope();
+        while self.state.symbol_table.height() > height {
+            self.state.symbol_table.pop_scope();
+        }
         self.expect_token(Token::CloseParen)?;
         Ok(self.pool.add(Term::Binder(binder, bindings, term)))
     }
@@ -1564,9 +1574,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
                         // In proofs, named terms are used as abbreviations of terms that contain
                         // bound variables, so a name simply stands for the text of the term
-                        let height = p.state.symbol_table.height();
-                        let depth = if p.problem.is_some() && height == 1 {
-                            height
+                        let is_closed = p.state.symbol_table.scopes_from(1).flatten().next().is_none();
+                        let depth = if p.problem.is_some() && is_closed {
+                            1
                         } else {
                             usize::MAX
                         };
-- 
2.43.0


From 555f8b37cad210be4721b6fce755cf29d3da3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 79/98] fix: capture by definitions is checked for symbols that
 were shadowed where they are defined

---
 carcara/src/parser/mod.rs |  1 -
 carcara/src/utils.rs      | 13 -------------
 2 files changed, 14 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index fa65ce7..b00c0fb 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -271,7 +271,6 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let shadowing: Vec<SortedVar> = table
             .scopes_from(func.depth)
             .flatten()
-            .filter(|(var, sort)| table.get_up_to(func.depth, *var) == Some(*sort))
             .map(|(var, sort)| (var.as_ref().clone(), sort.clone()))
             .collect();
         if !shadowing.is_empty() {
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 9f7d889..80855e8 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -162,19 +162,6 @@ impl<K: Eq + Hash, V> HashMapStack<K, V> {
             .find_map(|(depth, scope)| scope.get(key).map(|v| (depth, v)))
     }
 
-    /// Same as `get`, but only looks in the `height` outermost scopes.
-    pub fn get_up_to<Q>(&self, height: usize, key: &Q) -> Option<&V>
-    where
-        K: Borrow<Q>,
-        Q: Eq + Hash + ?Sized,
-    {
-        let height = height.min(self.scopes.len());
-        self.scopes[..height]
-            .iter()
-            .rev()
-            .find_map(|scope| scope.get(key))
-    }
-
     /// Iterates over all scopes, except the `height` outermost ones.
     pub fn scopes_from(&self, height: usize) -> impl Iterator<Item = &IndexMap<K, V>> {
         self.scopes.iter().skip(height)
-- 
2.43.0


From 1091b6083273f0a26cf738d521f93fc9043fecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 80/98] fix: printing a term in an error message doesn't expand
 shared subterms

---
 carcara/src/ast/printer.rs | 77 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 68e2f4d..0caafe6 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -113,7 +113,9 @@ impl PrintWithSharing for Rc<Term> {
         }
         if p.term_indices.is_some() {
             // There are a few cases where we don't use sharing when printing a term:
-            let cannot_use_sharing =
+            let cannot_use_sharing = if let Some(shareable) = &p.shareable_terms {
+                !shareable.contains(self)
+            } else {
                 // - Terminal terms (i.e., constants or variables) could in theory be shared,
                 // but, since they are very small, it's not worth it to give them a name.
                 self.is_const() || self.is_var()
@@ -132,7 +134,8 @@ impl PrintWithSharing for Rc<Term> {
                 || !self.is_closed(p.pool, &p.global_vars)
                 // - If a variable bound around the term has the same name and sort as a global
                 // variable in it, the term is not the same as the one we would be naming
-                || !p.is_independent_of_scope(self);
+                || !p.is_independent_of_scope(self)
+            };
 
             if !cannot_use_sharing {
                 let index = p.term_indices.as_ref().unwrap().get(self).copied();
@@ -191,6 +194,10 @@ struct AlethePrinter<'a> {
     pool: &'a mut PrimitivePool,
     inner: &'a mut dyn io::Write,
     term_indices: Option<IndexMap<Rc<Term>, usize>>,
+
+    /// The terms that should be shared, if they are already known. Otherwise, this is decided when
+    /// printing each term
+    shareable_terms: Option<HashSet<Rc<Term>>>,
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
@@ -320,6 +327,7 @@ impl<'a> AlethePrinter<'a> {
             pool,
             inner: dest,
             term_indices: use_sharing.then(IndexMap::new),
+            shareable_terms: None,
             term_sharing_variable_prefix: "@p_",
             global_vars: global_variables,
             defined_constants: HashMap::new(),
@@ -610,6 +618,66 @@ fn collect_symbols<'a>(
     }
 }
 
+/// Returns the subterms of the given term that appear in it more than once, and whose meaning is
+/// the same in all of it, as they don't contain any names that are bound somewhere in the term.
+fn collect_shareable_terms(term: &Term) -> HashSet<Rc<Term>> {
+    fn subterms(term: &Term) -> Vec<&Rc<Term>> {
+        match term {
+            Term::Const(_) | Term::Sort(_) | Term::Var(..) => Vec::new(),
+            Term::App(func, args) => std::iter::once(func).chain(args).collect(),
+            Term::Op(_, args) | Term::ParamOp { args, .. } => args.iter().collect(),
+            Term::Binder(_, _, inner) => vec![inner],
+            Term::Let(bindings, inner) => {
+                let values = bindings.iter().map(|(_, value)| value);
+                values.chain(std::iter::once(inner)).collect()
+            }
+        }
+    }
+
+    fn visit<'a>(
+        term: &'a Rc<Term>,
+        bound_names: &HashSet<&String>,
+        depends_on_scope: &mut HashMap<&'a Rc<Term>, bool>,
+        result: &mut HashSet<Rc<Term>>,
+    ) -> bool {
+        if let Some(&depends) = depends_on_scope.get(term) {
+            if !depends && !term.is_const() && !term.is_var() && !term.is_sort() {
+                result.insert(term.clone());
+            }
+            return depends;
+        }
+        let mut depends = match term.as_ref() {
+            Term::Var(name, _) => bound_names.contains(name),
+            Term::Binder(..) | Term::Let(..) => true,
+            _ => false,
+        };
+        for subterm in subterms(term) {
+            depends |= visit(subterm, bound_names, depends_on_scope, result);
+        }
+        depends_on_scope.insert(term, depends);
+        depends
+    }
+
+    let mut bound_names = HashSet::new();
+    let mut visited: HashSet<*const Term> = HashSet::new();
+    let mut todo = vec![term];
+    while let Some(term) = todo.pop() {
+        if visited.insert(std::ptr::from_ref(term)) {
+            if let Term::Binder(_, bindings, _) | Term::Let(bindings, _) = term {
+                bound_names.extend(bindings.iter().map(|(name, _)| name));
+            }
+            todo.extend(subterms(term).into_iter().map(Rc::as_ref));
+        }
+    }
+
+    let mut result = HashSet::new();
+    let mut depends_on_scope = HashMap::new();
+    for subterm in subterms(term) {
+        visit(subterm, &bound_names, &mut depends_on_scope, &mut result);
+    }
+    result
+}
+
 /// Adds to `symbols` the names of all variables that appear in the given commands, free or bound.
 fn collect_symbols_of_commands<'a>(
     commands: &'a [ProofCommand],
@@ -679,12 +747,15 @@ impl fmt::Display for Term {
         // false, we disable printing with sharing
         let use_sharing = USE_SHARING_IN_TERM_DISPLAY.load(Ordering::Relaxed) && !f.alternate();
         let mut buf = Vec::new();
-        // This pool is only used for the free variables cache, so it's fine to use a fresh pool
         let mut pool = PrimitivePool::new();
+        // As this term may have outlived its pool, we can't rely on reference counts, or use a pool
+        // to compute sorts or free variables
+        let shareable_terms = use_sharing.then(|| collect_shareable_terms(self));
         let mut printer = AlethePrinter {
             pool: &mut pool,
             inner: &mut buf,
             term_indices: use_sharing.then(IndexMap::new),
+            shareable_terms,
             term_sharing_variable_prefix: "@p_",
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
-- 
2.43.0


From 9f7dea1e11780f6f729401c508f7cefa6f79421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 81/98] fix: a checker can be used again after a run that
 failed or succeeded

---
 carcara/src/checker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/mod.rs b/carcara/src/checker/mod.rs
index 7eaca86..efdc904 100644
--- a/carcara/src/checker/mod.rs
+++ b/carcara/src/checker/mod.rs
@@ -125,6 +125,11 @@ impl<'c> ProofChecker<'c> {
         proof: &Proof,
         mut stats: Option<&mut CheckerStatistics<CR>>,
     ) -> CarcaraResult<bool> {
+        // This checker may have been used before, and that run may have failed inside a subproof
+        self.context = ContextStack::new();
+        self.reached_empty_clause = false;
+        self.is_holey = false;
+
         // Similarly to the parser, to avoid stack overflows in proofs with many nested subproofs,
         // we check the subproofs iteratively, instead of recursively
         let mut iter = proof.iter();
-- 
2.43.0


From c51f7358eac0041d455389b147b8edc7492c507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 82/98] fix: instances of rare rules are only built when they
 are well-sorted, and huge integer arguments are refused

---
 carcara/src/ast/pool/mod.rs       |   9 +-
 carcara/src/ast/substitution.rs   |   8 -
 carcara/src/ast/term.rs           |   9 +-
 carcara/src/checker/error.rs      |   3 +
 carcara/src/checker/rules/rare.rs | 280 +++++++++++++++++++++++++++---
 5 files changed, 266 insertions(+), 43 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 4c61cf4..731aaef 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -154,6 +154,7 @@ impl PrimitivePool {
                         .clone()
                     {
                         Sort::BitVec(width) => Sort::BitVec(width),
+                        Sort::Var(name) => Sort::Var(name),
                         Sort::ParamSort(v, head) => {
                             if let Some(Sort::Var(_)) = head.as_sort() {
                                 Sort::ParamSort(v, head)
@@ -167,7 +168,7 @@ impl PrimitivePool {
                 Operator::BvComp => Sort::BitVec(1),
                 Operator::BvBbTerm | Operator::BvPBbTerm => Sort::BitVec(args.len()),
                 Operator::BvConst => match &*args[1] {
-                    Term::Const(Constant::Integer(bvsize)) => {
+                    Term::Const(Constant::Integer(bvsize)) if bvsize.to_usize().is_some() => {
                         Sort::BitVec(bvsize.to_usize().unwrap())
                     }
                     _ => Sort::ParamSort(
@@ -183,6 +184,7 @@ impl PrimitivePool {
                         Width(usize),
                         ParamSort(Rc<Term>),
                     }
+                    let mut unknown_sort: Option<Sort> = None;
                     let mut total_width: Vec<TotalWidth> = vec![];
                     for arg in args {
                         match self
@@ -197,10 +199,13 @@ impl PrimitivePool {
                             Sort::ParamSort(v, _) => {
                                 total_width.push(TotalWidth::ParamSort(v[0].clone()));
                             }
+                            sort @ Sort::Var(_) => unknown_sort = Some(sort),
                             _ => unreachable!(),
                         }
                     }
-                    if total_width
+                    if let Some(sort) = unknown_sort {
+                        sort
+                    } else if total_width
                         .iter()
                         .any(|x| matches!(x, TotalWidth::ParamSort(_)))
                     {
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 2a2e88a..52fd9e3 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -118,14 +118,6 @@ impl Substitution {
         Ok(())
     }
 
-    /// Extends the substitution by adding a new mapping from `x` to `t`, without checking that they
-    /// have the same sort.
-    pub(crate) fn insert_unchecked(&mut self, x: Rc<Term>, t: Rc<Term>) {
-        self.should_be_renamed = None;
-        self.cache.clear();
-        self.map.insert(x, t);
-    }
-
     /// Removes all mappings from the substitution that become invalid when the variable `x` is
     /// shadowed, that is, any mapping from `x`, and any mapping to a term where `x` is free.
     ///
diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index 1d38efe..a7ea52e 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -1060,12 +1060,9 @@ impl Rc<Term> {
 
     /// Similar to `Term::as_integer_err`, but also checks if non-negative.
     pub fn as_usize_err(&self) -> Result<usize, CheckerError> {
-        if let Some(i) = self.as_integer() {
-            if i >= 0 {
-                return Ok(i.to_usize().unwrap());
-            }
-        }
-        Err(CheckerError::ExpectedNonnegInteger(self.clone()))
+        self.as_integer()
+            .and_then(|i| i.to_usize())
+            .ok_or_else(|| CheckerError::ExpectedNonnegInteger(self.clone()))
     }
 
     /// Similar to `Term::as_signed_number`, but returns a `CheckerError` on failure.
diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 75fa541..53e74ec 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -225,6 +225,9 @@ pub enum CheckerError {
     #[error("the argument {0} isn't a list")]
     RareArgumentIsNotRareList(String),
 
+    #[error("the term {0} of the rule can't be instantiated with these arguments")]
+    RareIllSorted(Rc<Term>),
+
     #[error("the premise {0} isn't equal to {1}")]
     RarePremiseAreNotEqual(Rc<Term>, Rc<Term>),
 
diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index f9950a6..ef2403c 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,13 +1,215 @@
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 
 use crate::{
-    ast::{rare_rules::AttributeParameters, Constant, Operator, Sort, Substitution, Term},
+    ast::{
+        rare_rules::AttributeParameters, Constant, Operator, ParamOperator, Rc, Sort, Substitution,
+        Term, TermPool,
+    },
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
 
 use super::{RuleArgs, RuleResult};
 
+/// Replaces variables by sequences of variables, which may be of other sorts.
+struct Splicer<'a> {
+    pool: &'a mut dyn TermPool,
+    map: IndexMap<Rc<Term>, Vec<Rc<Term>>>,
+    cache: IndexMap<Rc<Term>, Rc<Term>>,
+}
+
+impl Splicer<'_> {
+    /// Replaces the variables in `term`. This returns an error if that would result in an ill-sorted
+    /// term.
+    fn apply(&mut self, term: &Rc<Term>) -> Result<Rc<Term>, CheckerError> {
+        if let Some(t) = self.cache.get(term) {
+            return Ok(t.clone());
+        }
+        let result = match term.as_ref() {
+            Term::Const(_) | Term::Sort(_) => term.clone(),
+            Term::Var(..) => match self.map.get(term).map(Vec::as_slice) {
+                None => term.clone(),
+                Some([t]) => t.clone(),
+                Some(_) => return Err(CheckerError::RareIllSorted(term.clone())),
+            },
+            Term::App(f, args) => {
+                let new = Term::App(self.apply(f)?, self.apply_to_args(args)?);
+                self.add_checked(term, new)?
+            }
+            Term::Op(op, args) => {
+                let new = Term::Op(*op, self.apply_to_args(args)?);
+                self.add_checked(term, new)?
+            }
+            Term::ParamOp { op, op_args, args } => {
+                let args = args
+                    .iter()
+                    .map(|a| self.apply(a))
+                    .collect::<Result<Vec<_>, _>>()?;
+                let new = Term::ParamOp {
+                    op: *op,
+                    op_args: op_args.clone(),
+                    args,
+                };
+                self.add_checked(term, new)?
+            }
+            Term::Binder(binder, bindings, inner) => {
+                let bound: Vec<_> = bindings
+                    .iter()
+                    .map(|var| self.pool.add(var.clone().into()))
+                    .collect();
+                let inner = self.apply_under(&bound, inner)?;
+                self.pool
+                    .add(Term::Binder(*binder, bindings.clone(), inner))
+            }
+            Term::Let(bindings, inner) => {
+                let mut new_bindings = bindings.clone();
+                let mut bound = Vec::new();
+                for (name, value) in &mut new_bindings.0 {
+                    let sort = self.pool.sort(value);
+                    bound.push(self.pool.add(Term::Var(name.clone(), sort)));
+                    *value = self.apply(value)?;
+                }
+                let inner = self.apply_under(&bound, inner)?;
+                self.pool.add(Term::Let(new_bindings, inner))
+            }
+        };
+        self.cache.insert(term.clone(), result.clone());
+        Ok(result)
+    }
+
+    fn apply_to_args(&mut self, args: &[Rc<Term>]) -> Result<Vec<Rc<Term>>, CheckerError> {
+        let mut result = Vec::with_capacity(args.len());
+        for arg in args {
+            if let Some(list) = self.map.get(arg) {
+                result.extend(list.iter().cloned());
+            } else if let Term::Op(Operator::RareList, elements) = arg.as_ref() {
+                result.extend(self.apply_to_args(elements)?);
+            } else {
+                result.push(self.apply(arg)?);
+            }
+        }
+        Ok(result)
+    }
+
+    /// Replaces the variables in `inner`, where the variables in `bound` are shadowed.
+    fn apply_under(
+        &mut self,
+        bound: &[Rc<Term>],
+        inner: &Rc<Term>,
+    ) -> Result<Rc<Term>, CheckerError> {
+        if !bound.iter().any(|var| self.map.contains_key(var)) {
+            return self.apply(inner);
+        }
+        let mut map = self.map.clone();
+        map.retain(|var, _| !bound.contains(var));
+        Splicer {
+            pool: self.pool,
+            map,
+            cache: IndexMap::new(),
+        }
+        .apply(inner)
+    }
+
+    /// Adds to the pool the term `new`, that results from replacing the variables in `original`,
+    /// after checking that it has a sort.
+    fn add_checked(&mut self, original: &Rc<Term>, new: Term) -> Result<Rc<Term>, CheckerError> {
+        let pool = &mut *self.pool;
+        let is_sorted = match (original.as_ref(), &new) {
+            _ if **original == new => true,
+            (Term::App(..), Term::App(f, args)) => match pool.sort(f).as_sort().unwrap() {
+                Sort::Function(sorts) => sorts.len() == args.len() + 1,
+                Sort::ParamSort(_, sort) => match sort.as_sort() {
+                    Some(Sort::Function(sorts)) => {
+                        let mut map = IndexMap::new();
+                        sorts.len() == args.len() + 1
+                            && sorts.iter().zip(args).all(|(s, arg)| {
+                                s.as_sort()
+                                    .unwrap()
+                                    .match_with(pool.sort(arg).as_sort().unwrap(), &mut map)
+                            })
+                    }
+                    _ => false,
+                },
+                _ => false,
+            },
+            (Term::Op(_, old_args), Term::Op(op, args)) => {
+                let sorts: Vec<_> = args.iter().map(|arg| pool.sort(arg)).collect();
+                let mut sorts = sorts.iter().map(|sort| sort.as_sort().unwrap());
+                match op {
+                    Operator::And | Operator::Or => true,
+                    _ if args.is_empty() => false,
+                    Operator::Ite | Operator::Store | Operator::BvConst => {
+                        args.len() == old_args.len()
+                    }
+                    Operator::Select => {
+                        args.len() == old_args.len()
+                            && match sorts.next() {
+                                Some(Sort::Array(..)) => true,
+                                Some(sort @ Sort::ParamSort(..)) => sort.is_polymorphic(),
+                                _ => false,
+                            }
+                    }
+                    Operator::BvConcat
+                    | Operator::BvAdd
+                    | Operator::BvSub
+                    | Operator::BvNot
+                    | Operator::BvNeg
+                    | Operator::BvAnd
+                    | Operator::BvOr
+                    | Operator::BvMul
+                    | Operator::BvUDiv
+                    | Operator::BvURem
+                    | Operator::BvShl
+                    | Operator::BvLShr
+                    | Operator::BvNAnd
+                    | Operator::BvNOr
+                    | Operator::BvXor
+                    | Operator::BvXNor
+                    | Operator::BvSDiv
+                    | Operator::BvSRem
+                    | Operator::BvSMod
+                    | Operator::BvAShr => sorts.all(|sort| match sort {
+                        Sort::BitVec(_) => true,
+                        _ => sort.is_polymorphic(),
+                    }),
+                    _ => true,
+                }
+            }
+            (Term::ParamOp { .. }, Term::ParamOp { op, args, .. }) => match op {
+                ParamOperator::ZeroExtend | ParamOperator::SignExtend | ParamOperator::Repeat => {
+                    matches!(pool.sort(&args[0]).as_sort(), Some(Sort::BitVec(_)))
+                }
+                _ => true,
+            },
+            _ => true,
+        };
+        if !is_sorted {
+            return Err(CheckerError::RareIllSorted(original.clone()));
+        }
+        Ok(pool.add(new))
+    }
+}
+
+/// Returns `true` if there is a list anywhere in the term.
+fn contains_list<'a>(term: &'a Rc<Term>, seen: &mut IndexSet<&'a Rc<Term>>) -> bool {
+    if !seen.insert(term) {
+        return false;
+    }
+    match term.as_ref() {
+        Term::Op(Operator::RareList, _) => true,
+        Term::Const(_) | Term::Sort(_) | Term::Var(..) => false,
+        Term::Op(_, args) | Term::ParamOp { args, .. } => {
+            args.iter().any(|a| contains_list(a, seen))
+        }
+        Term::App(f, args) => contains_list(f, seen) || args.iter().any(|a| contains_list(a, seen)),
+        Term::Binder(_, _, inner) => contains_list(inner, seen),
+        Term::Let(bindings, inner) => {
+            bindings.iter().any(|(_, value)| contains_list(value, seen))
+                || contains_list(inner, seen)
+        }
+    }
+}
+
 pub fn check_rare(
     RuleArgs {
         premises,
@@ -38,7 +240,7 @@ pub fn check_rare(
 
         let mut arguments = args.iter().rev();
         let mut map = IndexMap::new();
-        let mut lists = Vec::new();
+        let mut splices = IndexMap::new();
 
         for arg in rare_term.arguments.iter().rev() {
             let arg_sort = rare_term.parameters.get(arg).unwrap();
@@ -57,25 +259,41 @@ pub fn check_rare(
             }
             let var = pool.add(Term::Var(arg.clone(), arg_sort.term.clone()));
 
-            match value.as_ref() {
-                // The sort of a list parameter is the sort of its elements
-                Term::Op(Operator::RareList, elements) => {
-                    let polymorphic = arg_sort.term.as_sort().is_some_and(Sort::is_polymorphic);
-                    if let Some(e) = elements
-                        .iter()
-                        .find(|e| !polymorphic && pool.sort(e) != arg_sort.term)
-                    {
-                        return Err(CheckerError::RareMisMatchTypes(
-                            arg.clone(),
-                            arg_sort.term.clone(),
-                            pool.sort(e),
-                        ));
-                    }
-                    lists.push((var, value.clone()));
+            let (is_list, elements) = match value.as_ref() {
+                Term::Op(Operator::RareList, elements) => (true, elements.as_slice()),
+                _ => (false, std::slice::from_ref(value)),
+            };
+
+            // The sort of a list parameter is the sort of its elements
+            let polymorphic = arg_sort.term.as_sort().is_some_and(Sort::is_polymorphic);
+            let mut same_sort = true;
+            for e in elements {
+                let sort = pool.sort(e);
+                same_sort = same_sort && sort == arg_sort.term;
+                if sort != arg_sort.term && is_list && !polymorphic
+                    || contains_list(e, &mut IndexSet::new())
+                {
+                    return Err(CheckerError::RareMisMatchTypes(
+                        arg.clone(),
+                        arg_sort.term.clone(),
+                        sort,
+                    ));
                 }
-                _ => {
-                    map.insert(var, value.clone());
+            }
+
+            // Elements of lists, and values of polymorphic parameters, are first represented in the
+            // rule by variables of their own sort. No other variable can have these names
+            if is_list || (polymorphic && !same_sort) {
+                let mut vars = Vec::new();
+                for (i, e) in elements.iter().enumerate() {
+                    let sort = pool.sort(e);
+                    let element_var = pool.add(Term::Var(format!("{arg}\\{i}"), sort));
+                    map.insert(element_var.clone(), e.clone());
+                    vars.push(element_var);
                 }
+                splices.insert(var, vars);
+            } else {
+                map.insert(var, value.clone());
             }
         }
 
@@ -85,15 +303,23 @@ pub fn check_rare(
             ));
         }
 
-        let mut rare_premises = rare_term.premises.iter();
         let mut subst = Substitution::new(pool, map)?;
-        for (var, list) in lists {
-            subst.insert_unchecked(var, list);
-        }
+        let (expected_premises, expected_conclusion) = {
+            let mut splicer = Splicer {
+                pool,
+                map: splices,
+                cache: IndexMap::new(),
+            };
+            let premises = rare_term
+                .premises
+                .iter()
+                .map(|p| splicer.apply(p))
+                .collect::<Result<Vec<_>, _>>()?;
+            (premises, splicer.apply(&rare_term.conclusion)?)
+        };
 
-        for premise in premises {
+        for (premise, rare_premise) in premises.iter().zip(&expected_premises) {
             let premise = get_premise_term(premise)?;
-            let rare_premise = rare_premises.next().unwrap();
             let rare_premise = subst.apply(pool, rare_premise);
             let rare_premise = rewrite_meta_terms(pool, rare_premise, &get_rules());
 
@@ -105,7 +331,7 @@ pub fn check_rare(
             }
         }
 
-        let got = subst.apply(pool, &rare_term.conclusion);
+        let got = subst.apply(pool, &expected_conclusion);
         for premise in premises {
             let premise = get_premise_term(premise)?;
             let premise_rare = rewrite_meta_terms(pool, premise.clone(), &get_rules());
-- 
2.43.0


From d305fc90284c7f42de0b6b54ea4dbdc010f6e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 83/98] fix: combining metrics does not round the weight of the
 difference of their means

---
 carcara/src/benchmarking/metrics.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/carcara/src/benchmarking/metrics.rs b/carcara/src/benchmarking/metrics.rs
index 39fd230..93ad05e 100644
--- a/carcara/src/benchmarking/metrics.rs
+++ b/carcara/src/benchmarking/metrics.rs
@@ -216,10 +216,8 @@ impl<K: Clone, T: MetricsUnit> Metrics<K, T> for OnlineMetrics<K, T> {
     }
 
     /// Combines two metrics into one. If one the metrics has only one data point, this is
-    /// equivalent to `Metrics::add_sample`. This is generally numerically stable if the metrics
-    /// have many data points, or exactly one. If one of the metrics is small, the error in the
-    /// variance introduced by using this method (as opposed to using `Metrics::add_sample` on each
-    /// data point) can be as high as 30%.
+    /// equivalent to `Metrics::add_sample`. The result is the same as if `Metrics::add_sample` had
+    /// been used on each data point, up to rounding.
     fn combine(self, other: Self) -> Self {
         match (self.count, other.count) {
             (0, _) => return other,
@@ -242,7 +240,7 @@ impl<K: Clone, T: MetricsUnit> Metrics<K, T> for OnlineMetrics<K, T> {
         let delta = other.mean.absolute_diff(self.mean).as_f64();
         let sum_of_squared_distances = self.sum_of_squared_distances
             + other.sum_of_squared_distances
-            + delta * delta * (self.count * other.count / count) as f64;
+            + delta * delta * (self.count as f64 * other.count as f64 / count as f64);
 
         let max_min = match (self.max_min, other.max_min) {
             (a, None) => a,
-- 
2.43.0


From a96a3f789fb6966242f3f1dd8890e237ef318ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 84/98] fix: combined CSV benchmark results remember whether
 any proof was holey

---
 carcara/src/benchmarking/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/benchmarking/mod.rs b/carcara/src/benchmarking/mod.rs
index 9f5da1b..fdc45c8 100644
--- a/carcara/src/benchmarking/mod.rs
+++ b/carcara/src/benchmarking/mod.rs
@@ -518,6 +518,7 @@ impl CollectResults for CsvBenchmarkResults {
         // in benchmarks anyway
         a.runs.extend(b.runs);
         a.steps.extend(b.steps);
+        a.is_holey |= b.is_holey;
         a.num_errors += b.num_errors;
         a
     }
-- 
2.43.0


From 245ed75dd910ffde4c39d30ae1b9d3d2f9c4259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 85/98] fix: statistics of steps checked in parallel are
 collected under the name of their file

---
 carcara/src/checker/parallel/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 9d11dc9..3b3f3cf 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -146,6 +146,7 @@ impl<'c> ParallelProofChecker<'c> {
         scheduler: &Scheduler,
         stats: &mut CheckerStatistics<CR>,
     ) -> CarcaraResult<bool> {
+        let file_name = stats.file_name;
         // Used to stimulate threads to abort prematurely (only happens when a
         // thread already found out an invalid step)
         let premature_abort = Arc::new(AtomicBool::new(false));
@@ -158,7 +159,7 @@ impl<'c> ParallelProofChecker<'c> {
                 .enumerate()
                 .map(|(i, schedule)| {
                     let mut local_stats = CheckerStatistics {
-                        file_name: "",
+                        file_name,
                         polyeq_time: Duration::ZERO,
                         assume_time: Duration::ZERO,
                         assume_core_time: Duration::ZERO,
-- 
2.43.0


From 5932235c467d75eac635f3dd7f596e4fe9c1abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 86/98] fix: benchmarks keep the data collected before a file
 that cannot be read or parsed

---
 cli/src/benchmarking.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 231b2f4..8788631 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -27,14 +27,6 @@ fn run_job<T: CollectResults + Default + Send>(
     elaborator_config: Option<(elaborator::Config, Vec<elaborator::ElaborationStep>)>,
 ) -> Result<bool, carcara::Error> {
     let proof_file_name = job.proof_file.to_str().unwrap();
-    let mut checker_stats = checker::CheckerStatistics {
-        file_name: proof_file_name,
-        polyeq_time: Duration::ZERO,
-        assume_time: Duration::ZERO,
-        assume_core_time: Duration::ZERO,
-        results: std::mem::take(results),
-    };
-
     let total = Instant::now();
 
     let parsing = Instant::now();
@@ -46,6 +38,14 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    let mut checker_stats = checker::CheckerStatistics {
+        file_name: proof_file_name,
+        polyeq_time: Duration::ZERO,
+        assume_time: Duration::ZERO,
+        assume_core_time: Duration::ZERO,
+        results: std::mem::take(results),
+    };
+
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
-- 
2.43.0


From 3220a9af2a4d4bedce6a59a46ccda07f5385c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 87/98] fix: benchmarks do not elaborate proofs that failed to
 check

---
 cli/src/benchmarking.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 8788631..2382d29 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -53,14 +53,19 @@ fn run_job<T: CollectResults + Default + Send>(
     let checking_result = checker.check_with_stats(&problem, &proof, &mut checker_stats);
     let checking = checking.elapsed();
 
+    // A proof can only be elaborated if it is correct
     let (elaboration, pipeline_durations) = if let Some((config, pipeline)) = elaborator_config {
-        let elaboration = Instant::now();
-        let node = ast::ProofNodeForest::from_commands(proof.commands);
-        let (elaborated, pipeline_durations) =
-            elaborator::Elaborator::new(&mut pool, &problem, config)
-                .elaborate_with_stats(node, pipeline);
-        elaborated.into_commands();
-        (elaboration.elapsed(), pipeline_durations)
+        if checking_result.is_err() {
+            (Duration::ZERO, vec![Duration::ZERO; pipeline.len()])
+        } else {
+            let elaboration = Instant::now();
+            let node = ast::ProofNodeForest::from_commands(proof.commands);
+            let (elaborated, pipeline_durations) =
+                elaborator::Elaborator::new(&mut pool, &problem, config)
+                    .elaborate_with_stats(node, pipeline);
+            elaborated.into_commands();
+            (elaboration.elapsed(), pipeline_durations)
+        }
     } else {
         (Duration::ZERO, Vec::new())
     };
-- 
2.43.0


From c2dcb333c8da4db73dba876ff79649ea4f2e7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 88/98] fix: benchmarks with no runs or no jobs do not panic

---
 cli/src/benchmarking.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 2382d29..04a4163 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -129,7 +129,7 @@ pub fn run_benchmark<T: CollectResults + Default + Send>(
 ) -> T {
     const STACK_SIZE: usize = 128 * 1024 * 1024;
 
-    let jobs_queue = ArrayQueue::new(instances.len() * num_runs);
+    let jobs_queue = ArrayQueue::new((instances.len() * num_runs).max(1));
     for run_index in 0..num_runs {
         for (problem, proof) in instances {
             let job = JobDescriptor {
@@ -147,7 +147,7 @@ pub fn run_benchmark<T: CollectResults + Default + Send>(
         // We of course need to `collect` here to ensure we spawn all threads before starting to
         // `join` them
         #[allow(clippy::needless_collect)]
-        let workers: Vec<_> = (0..num_jobs)
+        let workers: Vec<_> = (0..num_jobs.max(1))
             .map(|_| {
                 let checker_config = checker_config.clone();
                 let elaborator_config = elaborator_config.clone();
-- 
2.43.0


From 5203fb61e0e0c9b57126ffae455db9460b8c4b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 89/98] fix: the threads of the parallel checker have the
 default stack size unless one is given

---
 carcara/src/checker/parallel/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 3b3f3cf..b8d0b01 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -67,6 +67,17 @@ impl<'c> ParallelProofChecker<'c> {
         }
     }
 
+    /// The builder for the thread of the `i`-th worker. If no stack size was given, the threads have
+    /// the default one.
+    fn worker_builder(&self, i: usize) -> thread::Builder {
+        let builder = thread::Builder::new().name(format!("worker-{i}"));
+        if self.stack_size == 0 {
+            builder
+        } else {
+            builder.stack_size(self.stack_size)
+        }
+    }
+
     pub fn check(
         &mut self,
         problem: &Problem,
@@ -89,9 +100,7 @@ impl<'c> ParallelProofChecker<'c> {
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.worker_builder(i)
                         .spawn_scoped(s, move || -> CarcaraResult<(bool, bool)> {
                             local_self.worker_thread_check(
                                 problem,
@@ -170,9 +179,7 @@ impl<'c> ParallelProofChecker<'c> {
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.worker_builder(i)
                         .spawn_scoped(
                             s,
                             move || -> CarcaraResult<(bool, bool, CheckerStatistics<CR>)> {
-- 
2.43.0


From ee7e601d8f287f25a63c0a9368a8f5b7ed8976d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 90/98] fix: slice writes the sliced problem and proof to the
 files its help text says

---
 cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index b878e5a..eeb40a3 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -692,15 +692,15 @@ fn slice_command(
         .ok_or(CliError::InvalidSliceId(options.from.clone()))?;
 
         // Write sliced problem and proof to provided paths or default locations.
-        let (sliced_proof_file_name, sliced_problem_file_name) = match options.sliced_output {
-            Some(proof_prob) => (proof_prob[0].clone(), proof_prob[1].clone()),
+        let (sliced_problem_file_name, sliced_proof_file_name) = match options.sliced_output {
+            Some(prob_proof) => (prob_proof[0].clone(), prob_proof[1].clone()),
             None => {
                 let path = Path::new(&options.input.proof_file);
                 let path_without_extension = path.with_extension("");
                 let base_name = path_without_extension.file_name().unwrap();
                 let prob = format!("{}-{}.smt2", base_name.display(), options.from);
                 let proof = format!("{}-{}.alethe", base_name.display(), options.from);
-                (proof, prob)
+                (prob, proof)
             }
         };
 
-- 
2.43.0


From d3c0fefe60994fdfe37de69200ae692b3eab4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:46 +0000
Subject: [PATCH 91/98] fix: characters that are not printable ASCII are
 escaped when printing string literals

---
 carcara/src/ast/printer.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 0caafe6..7ac95e7 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -733,12 +733,29 @@ fn as_decimal(r: &Rational) -> Option<String> {
 }
 
 fn escape_string(string: &str) -> Cow<'_, str> {
+    // According to the SMT-LIB theory of strings, only printable ASCII characters stand for
+    // themselves in string literals, and any other character up to `0x2ffff` must be escaped
+    fn must_escape(c: char) -> bool {
+        !matches!(c, ' '..='~') && u32::from(c) <= 0x2ffff
+    }
+
     // A backslash only needs to be escaped if it would be read as the start of an escape sequence
-    if string.contains('"') || string.contains("\\u") {
-        Cow::Owned(string.replace('"', "\"\"").replace("\\u", "\\u{5c}u"))
-    } else {
-        Cow::Borrowed(string)
+    if !string.contains('"') && !string.contains("\\u") && !string.contains(must_escape) {
+        return Cow::Borrowed(string);
+    }
+    let mut result = String::with_capacity(string.len());
+    for c in string
+        .replace('"', "\"\"")
+        .replace("\\u", "\\u{5c}u")
+        .chars()
+    {
+        if must_escape(c) {
+            result.push_str(&format!("\\u{{{:x}}}", u32::from(c)));
+        } else {
+            result.push(c);
+        }
     }
+    Cow::Owned(result)
 }
 
 impl fmt::Display for Term {
-- 
2.43.0


From fd82e79b4bd2e1191b4549aee47950a3c62eb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 92/98] fix: terms inside binders are not named in problems
 given to SMT solvers, as they are refused

---
 carcara/src/ast/printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 7ac95e7..493e975 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -141,6 +141,10 @@ impl PrintWithSharing for Rc<Term> {
                 let index = p.term_indices.as_ref().unwrap().get(self).copied();
                 return if let Some(i) = index {
                     write!(p.inner, "{}{}", p.term_sharing_variable_prefix, i)
+                } else if p.smt_lib_strict && !p.bound_names.is_empty() {
+                    // While the SMT-LIB standard only requires named terms to be closed, solvers
+                    // (in particular, cvc5) don't allow naming terms inside binders
+                    p.write_raw_term(self)
                 } else {
                     let i = p.new_term_index();
                     p.term_indices.as_mut().unwrap().insert(self.clone(), i);
-- 
2.43.0


From 045ce3ca2c9f05705e9be2cd2dc824d589f7da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:35 +0000
Subject: [PATCH 93/98] fix: symbols that are reserved or not valid in SMT-LIB
 are quoted when printed

---
 carcara/src/ast/printer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 493e975..7912719 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -561,6 +561,16 @@ where
     write!(f, ")")
 }
 
+/// The words that are reserved in SMT-LIB, but have no meaning to our parser.
+const SMT_LIB_RESERVED: [&str; 6] = [
+    "BINARY",
+    "DECIMAL",
+    "HEXADECIMAL",
+    "NUMERAL",
+    "STRING",
+    "par",
+];
+
 fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     assert!(symbol.chars().all(|c| c != '|'));
 
@@ -568,13 +578,14 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     // - is an empty string,
     // - starts with a digit, or with a '-' followed by a digit,
     // - is a reserved word, or
-    // - contains non-symbol characters
+    // - contains non-symbol characters (as well as `'`, which is only accepted by our parser)
     // must be quoted
     let unsigned = symbol.strip_prefix('-').unwrap_or(symbol);
     if symbol.is_empty()
         || unsigned.starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
-        || symbol.chars().any(|c| !is_symbol_character(c))
+        || SMT_LIB_RESERVED.contains(&symbol)
+        || symbol.chars().any(|c| !is_symbol_character(c) || c == '\'')
     {
         Cow::Owned(format!("|{}|", symbol))
     } else {
-- 
2.43.0


From 92a531466a188aef2aca7732231ca101211c69fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 94/98] fix: assumptions after a nested subproof are refused,
 like those after any other step

---
 carcara/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index b00c0fb..e11a384 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1025,8 +1025,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     ));
                 }
 
-                let (outer, _, _) = stack.last_mut().unwrap();
+                // The step that ends a subproof also counts as a step of the outer one
+                let (outer, _, has_step) = stack.last_mut().unwrap();
                 outer.commands.push(ProofCommand::Subproof(subproof));
+                *has_step = true;
             }
             let index = stack.last().unwrap().0.commands.len() - 1;
             self.state.step_ids.insert(id, index);
-- 
2.43.0


From 62ece24c510cf5558b407f7e33c0897d5eef701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 95/98] fix: terms of a thread's pool keep their identity when
 equal terms are added to the shared pool

---
 carcara/src/ast/pool/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 731aaef..953ae47 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -408,10 +408,12 @@ impl PrimitivePool {
             }
         };
         let sort = Term::Sort(result);
-        let sort = match prior_pools.iter().find_map(|p| p.storage.get(&sort)) {
-            Some(sort) => sort.clone(),
-            None => self.storage.add(sort),
-        };
+        let sort = self
+            .storage
+            .get(&sort)
+            .or_else(|| prior_pools.iter().find_map(|p| p.storage.get(&sort)))
+            .cloned()
+            .unwrap_or_else(|| self.storage.add(sort));
         self.sorts_cache.insert(term.clone(), sort);
         self.sorts_cache[term].clone()
     }
@@ -421,6 +423,14 @@ impl PrimitivePool {
         term: Term,
         prior_pools: [&PrimitivePool; N],
     ) -> Rc<Term> {
+        // Terms that are already in this pool always take precedence, since an equal term may have been
+        // added to a prior pool (that is shared with other threads) after them
+        if let Some(entry) = self.storage.get(&term) {
+            // A sort that was only computed has no sort itself yet
+            let entry = entry.clone();
+            self.compute_sort(&entry, prior_pools);
+            return entry;
+        }
         for p in prior_pools {
             // If this prior pool has the term
             if let Some(entry) = p.storage.get(&term) {
-- 
2.43.0


From bacbfe8f8fdf86d4e9de08500f47a03a1dba4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 96/98] fix: solver proofs for holes are inserted the way
 lia_generic ones are

---
 carcara/src/elaborator/hole.rs        | 110 +-------------------------
 carcara/src/elaborator/lia_generic.rs |   2 +-
 2 files changed, 2 insertions(+), 110 deletions(-)

diff --git a/carcara/src/elaborator/hole.rs b/carcara/src/elaborator/hole.rs
index 6f07ce6..6c856c7 100644
--- a/carcara/src/elaborator/hole.rs
+++ b/carcara/src/elaborator/hole.rs
@@ -1,4 +1,4 @@
-use super::*;
+use super::{lia_generic::insert_solver_proof, *};
 use crate::{checker, parser, CarcaraResult};
 use std::{
     io::{self, BufRead, Write},
@@ -159,111 +159,3 @@ fn parse_and_check_solver_proof(
     let res = checker::ProofChecker::new(pool, &rules, config).check(&problem, &proof)?;
     Ok((proof.commands, res))
 }
-
-fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) -> Rc<ProofNode> {
-    proof.mutate(|_, node, _| {
-        let node = match node.as_ref().clone() {
-            ProofNode::Assume { id, depth, term } => ProofNode::Assume {
-                id: format!("{}.{}", prefix, id),
-                depth: depth + delta,
-                term,
-            },
-            ProofNode::Step(mut s) => {
-                s.id = format!("{}.{}", prefix, s.id);
-                s.depth += delta;
-                ProofNode::Step(s)
-            }
-            ProofNode::Subproof(_) => unreachable!(),
-        };
-        Rc::new(node)
-    })
-}
-
-fn insert_solver_proof(
-    pool: &mut PrimitivePool,
-    commands: Vec<ProofCommand>,
-    conclusion: &[Rc<Term>],
-    root_id: &str,
-    depth: usize,
-) -> Rc<ProofNode> {
-    let proof = ProofNodeForest::from_commands(commands)
-        .0
-        .into_iter()
-        .find(|node| node.clause().is_empty())
-        .expect("solver proof does not conclude empty clause");
-
-    let mut ids = IdHelper::new(root_id);
-    let subproof_id = ids.next_id();
-
-    let mut clause: Vec<_> = conclusion
-        .iter()
-        .map(|l| build_term!(pool, (not (not {l.clone()}))))
-        .collect();
-
-    clause.push(pool.bool_false());
-
-    let proof = increase_subproof_depth(proof, depth + 1, root_id);
-    let subproof_assumptions = proof.get_assumptions_of_depth(depth + 1);
-
-    let last_step = Rc::new(ProofNode::Step(StepNode {
-        id: subproof_id,
-        depth: depth + 1,
-        clause: clause.clone(),
-        rule: "subproof".to_owned(),
-        premises: Vec::new(),
-        args: Vec::new(),
-        discharge: subproof_assumptions,
-        previous_step: Some(proof),
-    }));
-
-    let subproof = Rc::new(ProofNode::Subproof(SubproofNode {
-        last_step,
-        args: Vec::new(),
-        // Since the subproof was inserted from the solver proof, it cannot reference anything
-        // outside of it.
-        outbound_premises: Vec::new(),
-        extra_steps: Vec::new(),
-    }));
-
-    let not_not_steps: Vec<_> = clause[..clause.len() - 1]
-        .iter()
-        .map(|term| {
-            let clause = vec![
-                build_term!(pool, (not {term.clone()})),
-                term.remove_negation()
-                    .unwrap()
-                    .remove_negation()
-                    .unwrap()
-                    .clone(),
-            ];
-            Rc::new(ProofNode::Step(StepNode {
-                id: ids.next_id(),
-                depth,
-                clause,
-                rule: "not_not".to_owned(),
-                ..Default::default()
-            }))
-        })
-        .collect();
-
-    let false_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: vec![build_term!(pool, (not {pool.bool_false()}))],
-        rule: "false".to_owned(),
-        ..Default::default()
-    }));
-
-    let mut premises = vec![subproof];
-    premises.extend(not_not_steps);
-    premises.push(false_step);
-
-    Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: conclusion.to_vec(),
-        rule: "resolution".to_owned(),
-        premises,
-        ..Default::default()
-    }))
-}
diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 35bc764..62fd428 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -165,7 +165,7 @@ fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) ->
     })
 }
 
-fn insert_solver_proof(
+pub(super) fn insert_solver_proof(
     pool: &mut PrimitivePool,
     commands: Vec<ProofCommand>,
     conclusion: &[Rc<Term>],
-- 
2.43.0


From 0fb09b1179294e907ef5ce743261b5edb8ce6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 97/98] fix: assumptions a solver gives twice are discharged
 once in the inserted proof

---
 carcara/src/elaborator/lia_generic.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 62fd428..0e5f2df 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -147,8 +147,17 @@ fn parse_and_check_solver_proof(
 }
 
 fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) -> Rc<ProofNode> {
+    // The solver may have given the same assumption more than once. All of its copies must become the
+    // same node, since only one of them can be discharged for each literal in the conclusion
+    let mut assumptions: HashMap<Rc<Term>, Rc<ProofNode>> = HashMap::new();
     proof.mutate(|_, node, _| {
-        let node = match node.as_ref().clone() {
+        if let Some((_, 0, term)) = node.as_assume() {
+            if let Some(first) = assumptions.get(term) {
+                return first.clone();
+            }
+        }
+        let original = node;
+        let node = match original.as_ref().clone() {
             ProofNode::Assume { id, depth, term } => ProofNode::Assume {
                 id: format!("{}.{}", prefix, id),
                 depth: depth + delta,
@@ -161,7 +170,11 @@ fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) ->
             }
             ProofNode::Subproof(_) => unreachable!(),
         };
-        Rc::new(node)
+        let node = Rc::new(node);
+        if let Some((_, 0, term)) = original.as_assume() {
+            assumptions.insert(term.clone(), node.clone());
+        }
+        node
     })
 }
 
-- 
2.43.0


From 8efd3171367ef8cf00c0cea588a920c94c34cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 98/98] fix: a slice depends on the sliced step also when a
 subproof is the last before the end of the enclosing one

---
 carcara/src/slice.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 6628279..b7c07fb 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -163,6 +163,9 @@ fn get_slice_body(
     // A map of commands to their positions in the new proof.
     let mut new_index: HashMap<Key, (usize, usize)> = HashMap::new();
 
+    // The second to last commands of the subproofs that contain the step we're slicing
+    let mut penults: HashSet<Key> = HashSet::new();
+
     match from_step {
         ProofCommand::Assume { .. } => return None, // We can't slice an assume
         // Make a note to keep context of the step we're slicing.
@@ -177,6 +180,7 @@ fn get_slice_body(
                 // Get second to last step
                 let penult = &sp.commands[sp.commands.len() - 2];
                 to_keep.entry(Key::of(penult)).or_insert(false);
+                penults.insert(Key::of(penult));
 
                 // Get last step
                 let ult = Key::of(&sp.commands[sp.commands.len() - 1]);
@@ -223,13 +227,9 @@ fn get_slice_body(
                         have_seen_target = true;
                     }
 
-                    let is_penult: bool = copy_iter.is_in_subproof() && {
-                        let current_subproof = copy_iter
-                            .current_subproof()
-                            .expect("is_in_subproof is true, but current_subproof() is None");
-                        let penult = &current_subproof[current_subproof.len() - 2];
-                        Key::of(command) == Key::of(penult)
-                    };
+                    // This command might be the last step of a subproof, which is itself the
+                    // second to last command of the subproof around it
+                    let is_penult = penults.contains(&Key::of(command));
 
                     let step = if need_premises {
                         let new_indices = |ty: PremiseType| {
-- 
2.43.0

