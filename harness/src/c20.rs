//! C20 - reversed parametric curves.
use crate::curves::*;
use crate::sym::*;

fn curve(ty: i32) {
    let (p, r) = input(ty);
    let n = CURVES.iter().find(|c| c.0 == ty).map_or(0, |c| c.1);
    let (is, want) = (eval(-ty, &p[..n], r), reversed(ty, &p[..n], r));
    check!(same(is, want), "the curve computes its documented inverse");
}

obligations! {
    #[kani::unwind(12)]
    fn c20_type_1() {
        curve(1)
    }
    #[kani::unwind(12)]
    fn c20_type_2() {
        curve(2)
    }
    #[kani::unwind(12)]
    fn c20_type_3() {
        curve(3)
    }
    #[kani::unwind(12)]
    fn c20_type_4() {
        curve(4)
    }
    #[kani::unwind(12)]
    fn c20_type_5() {
        curve(5)
    }
    #[kani::unwind(12)]
    fn c20_type_6() {
        curve(6)
    }
    #[kani::unwind(12)]
    fn c20_type_7() {
        curve(7)
    }
    #[kani::unwind(12)]
    fn c20_type_8() {
        curve(8)
    }
    #[kani::unwind(12)]
    fn c20_type_108() {
        curve(108)
    }
    #[kani::unwind(12)]
    fn c20_type_109() {
        curve(109)
    }
}
