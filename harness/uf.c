/* Uninterpreted operations on the bit patterns of doubles (see DESIGN.md, C18 to C20). */
typedef unsigned long long u64;
#define UF1(n) u64 __CPROVER_uninterpreted_lcms_##n(u64); u64 uf_##n(u64 a) { return __CPROVER_uninterpreted_lcms_##n(a); }
#define UF2(n) u64 __CPROVER_uninterpreted_lcms_##n(u64, u64); u64 uf_##n(u64 a, u64 b) { return __CPROVER_uninterpreted_lcms_##n(a, b); }
UF2(add) UF2(mul) UF2(div) UF2(rem) UF2(powf) UF2(hypot)
UF1(exp) UF1(ln) UF1(log10) UF1(log2) UF1(sqrt) UF1(exp2) UF1(floor) UF1(ceil) UF1(round) UF1(trunc)
UF1(sin) UF1(cos) UF1(tan) UF1(exp_m1) UF1(ln_1p)
