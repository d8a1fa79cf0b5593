// Looking up curve types in tables of any length.
use vstd::prelude::*;
@SUB * \br#type\b ==> ty
@SUB * ParametricCurveEvaluator ==> u8
verus! {
@STRUCT src/plugins/para_curve.rs Curve
@STRUCT src/plugins/para_curve.rs ParametricCurves
pub assume_specification [i32::checked_abs] (x: i32) -> (r: Option<i32>)
    ensures r == (if x == i32::MIN { None::<i32> } else if x < 0 { Some((-x) as i32) } else { Some(x) });
pub open spec fn absolute(x: int) -> int { if x < 0 { -x } else { x } }
impl ParametricCurves {
    #[verifier::loop_isolation(false)]
@FN src/plugins/para_curve.rs ParametricCurves::is_in_set
        ensures
            /*NOT-VACUOUS*/ true,
            match r {
                Some(i) => i < self.curves@.len() && self.curves@[i as int].function_curve_id == absolute(ty as int)
                    && forall|j: int| 0 <= j < i ==> self.curves@[j].function_curve_id != absolute(ty as int),
                None => forall|j: int| 0 <= j < self.curves@.len() ==> self.curves@[j].function_curve_id != absolute(ty as int),
            },
@RANGE it for (\w+) in (0)\s*\.\.\s*(self\.curves\.len\(\))
            invariant
                it <= it_end, it_end == self.curves@.len(),
                forall|j: int| 0 <= j < it ==> self.curves@[j].function_curve_id != absolute(ty as int),
            decreases it_end - it,
@END
}
} // verus!
fn main() {}
