//! C18 - parametric curves are total.
use crate::curves::*;
use crate::sym::*;

fn total(ty: i32) {
    let (p, r) = input(ty);
    let n = CURVES.iter().find(|c| c.0 == ty).map_or(0, |c| c.1);
    for sign in [1, -1] {
        let exact = eval(sign * ty, &p[..n], r);
        let m: usize = any();
        #[cfg(not(kani))]
        let m = n + m % (p.len() - n + 1);
        assume(m >= n && m <= p.len());
        check!(same(exact, eval(sign * ty, &p[..m], r)), "a curve looks at its declared parameters only");
    }
}

obligations! {
    #[kani::unwind(12)]
    fn c18_unknown() {
        let ty: i32 = any();
        assume(!CURVES.iter().any(|c| c.0 == ty || c.0 == ty.wrapping_neg()));
        let (p, r) = input(ty);
        let n: usize = any();
        #[cfg(not(kani))]
        let n = n % 11;
        assume(n <= p.len());
        check!(same(eval(ty, &p[..n], r), k(0.0)), "a curve type that is not in the table evaluates to 0");
        reach!(n == 0, "without parameters");
    }
    #[kani::unwind(12)]
    fn c18_type_1() {
        total(1)
    }
    #[kani::unwind(12)]
    fn c18_type_2() {
        total(2)
    }
    #[kani::unwind(12)]
    fn c18_type_3() {
        total(3)
    }
    #[kani::unwind(12)]
    fn c18_type_4() {
        total(4)
    }
    #[kani::unwind(12)]
    fn c18_type_5() {
        total(5)
    }
    #[kani::unwind(12)]
    fn c18_type_6() {
        total(6)
    }
    #[kani::unwind(12)]
    fn c18_type_7() {
        total(7)
    }
    #[kani::unwind(12)]
    fn c18_type_8() {
        total(8)
    }
    #[kani::unwind(12)]
    fn c18_type_108() {
        total(108)
    }
    #[kani::unwind(12)]
    fn c18_type_109() {
        total(109)
    }
}
