//! C21 - looking up curve types. Tables of up to ten entries here; the Verus layer has no bound.
use crate::sym::*;
use lcms2::plugins::ParametricCurvesCollection;
use std::mem::forget;

fn table() -> ParametricCurvesCollection {
    vec![Default::default()]
}

obligations! {
    #[kani::unwind(14)]
    fn c21_builtin_table() {
        let t = table();
        let want = [(1, 1), (2, 3), (3, 4), (4, 5), (5, 7), (6, 4), (7, 5), (8, 5), (108, 1), (109, 1)];
        let c = &t[0].curves;
        check!(c.len() == 10, "the built-in table has ten curves");
        let i: usize = any();
        assume(i < 10);
        // in any order
        let mut found = false;
        let mut at = 0;
        for k in 0..10 {
            if c[k].function_curve_id == want[i].0 {
                found = true;
                at = k;
                check!(c[k].parameter_count == want[i].1, "each curve declares the number of parameters of its formula");
            }
        }
        check!(found, "each built-in curve is declared");
        check!(t[0].is_in_set(want[i].0) == Some(at) && t[0].is_in_set(-want[i].0) == Some(at), "each built-in curve is found, forward and reversed");
        forget(t);
    }
    #[kani::unwind(12)]
    fn c21_lookup() {
        let mut t = table();
        assume(t[0].curves.len() == 10);
        let ids: [i32; 10] = any();
        for i in 0..10 {
            t[0].curves[i].function_curve_id = ids[i];
        }
        let n: usize = any();
        assume(n <= 10);
        t[0].curves.truncate(n);
        let ty: i32 = any();
        let r = t[0].is_in_set(ty);
        reach!(ty == i32::MIN, "the most negative type");
        let matches = |k: usize| ids[k] as i64 == (ty as i64).abs();
        match r {
            Some(i) => {
                reach!(i > 2, "a later entry");
                check!(i < n, "the index is one of the table");
                check!(matches(i), "the entry has the type");
                let j: usize = any();
                assume(j < i);
                check!(!matches(j), "no earlier entry has the type");
            }
            None => {
                reach!(n == 10, "nothing found");
                let j: usize = any();
                assume(j < n);
                check!(!matches(j), "a type in the table is found");
            }
        }
        forget(t);
    }
}
