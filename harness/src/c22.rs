//! C22 - contexts.
use crate::ctx::*;
use crate::sym::*;
use lcms2::plugins::*;
use lcms2::state::context_verif::*;
use lcms2::state::{Context, ErrorCode};
use lcms2::io::IOHandler;
use lcms2::types::*;
use std::mem::forget;

/// User data of any length, of which the byte at `at` is `b`.
struct Data {
    len: Option<usize>,
    at: usize,
    b: u8,
}
fn any_data() -> (Option<Box<[u8]>>, Data) {
    if any() {
        let d = any_bytes();
        let at: usize = any();
        let w = Data { len: Some(d.len()), at, b: if at < d.len() { d[at] } else { 0 } };
        (Some(d.into_boxed_slice()), w)
    } else {
        (None, Data { len: None, at: 0, b: 0 })
    }
}
fn has_data(c: &Context, want: &Data) -> bool {
    match (c.get_user_data(), want.len) {
        (None, None) => true,
        (Some(d), Some(n)) => d.len() == n && (want.at >= n || d[want.at] == want.b),
        _ => false,
    }
}
fn is_default(c: &mut Context) {
    let i: usize = any();
    assume(i < 16);
    check!(alarm_codes(c).alarm_codes.len() == 16, "there are sixteen alarm codes");
    check!(alarm_codes(c).alarm_codes[i] == if i < 3 { 0x7F00 } else { 0 }, "the default alarm codes");
    check!(adaption_state(c).adaption_state == 1.0, "the default adaption state");
    check!(curves_plugin(c).parametric_curves.is_empty(), "no curve plug-ins");
    check!(formatters_plugin(c).factory_list.is_empty(), "no formatter plug-ins");
    check!(tag_types_plugin(c).tag_types.is_empty(), "no tag type plug-ins");
    check!(tags_plugin(c).tags.is_empty(), "no tag plug-ins");
    check!(intents_plugin(c).intents.is_empty(), "no intent plug-ins");
    check!(mpe_types_plugin(c).tag_types.is_empty(), "no multi process element plug-ins");
    check!(optimization_plugin(c).optimization_collection.is_empty(), "no optimization plug-ins");
    check!(transform_plugin(c).transform_collection.is_empty(), "no transform plug-ins");
}
fn interpolate_one(_: u32, _: u32, _: u32) -> InterpFunction {
    panic!()
}
fn interpolate_two(_: u32, _: u32, _: u32) -> InterpFunction {
    unreachable!()
}
fn opt_one(_: &mut Box<[Pipeline]>, _: Signature) -> Option<(Signature, Signature, u32)> {
    None
}
fn opt_two(_: &mut Box<[Pipeline]>, s: Signature) -> Option<(Signature, Signature, u32)> {
    Some((s, s, 0))
}
fn intent_one(_: &mut Context, _: usize, _: &[Signature], _: &[Profile], _: &[bool], _: &[f64], _: u32) -> std::sync::Arc<Pipeline> {
    panic!()
}
fn intent_two(_: &mut Context, _: usize, _: &[Signature], _: &[Profile], _: &[bool], _: &[f64], _: u32) -> std::sync::Arc<Pipeline> {
    unreachable!()
}
fn factory_one(_: Signature, _: FormatterDirection, _: FormatterPrecision) -> Formatter {
    panic!()
}
fn factory_two(_: Signature, _: FormatterDirection, _: FormatterPrecision) -> Formatter {
    unreachable!()
}
fn transform_one(_: TransformFn, _: &mut Box<[u8]>, _: &mut Box<Pipeline>) -> Option<(Signature, Signature, u32)> {
    None
}
fn transform_two(_: Transform2Fn, _: &mut Box<[u8]>, _: &mut Box<Pipeline>) -> Option<(Signature, Signature, u32)> {
    None
}
fn decide_one(_: f64, _: &[u8]) -> Signature {
    panic!()
}
fn decide_two(_: f64, _: &[u8]) -> Signature {
    unreachable!()
}
fn read_one(_: &mut Context, _: &TypeHandler, _: &dyn IOHandler, _: &mut u32, _: usize) -> Option<Box<[u8]>> {
    None
}
fn read_two(_: &mut Context, _: &TypeHandler, _: &dyn IOHandler, _: &mut u32, _: usize) -> Option<Box<[u8]>> {
    panic!()
}
fn write_one(_: &mut Context, _: &TypeHandler, _: &dyn IOHandler, _: &[u8], _: usize) -> Option<()> {
    None
}
fn write_two(_: &mut Context, _: &TypeHandler, _: &dyn IOHandler, _: &[u8], _: usize) -> Option<()> {
    Some(())
}
fn lengths(c: &mut Context) -> [usize; 8] {
    [
        curves_plugin(c).parametric_curves.len(),
        formatters_plugin(c).factory_list.len(),
        tag_types_plugin(c).tag_types.len(),
        tags_plugin(c).tags.len(),
        intents_plugin(c).intents.len(),
        mpe_types_plugin(c).tag_types.len(),
        optimization_plugin(c).optimization_collection.len(),
        transform_plugin(c).transform_collection.len(),
    ]
}
#[cfg(kani)]
fn many() -> usize {
    2
}
#[cfg(not(kani))]
fn many() -> usize {
    any::<u8>() as usize % 40
}

/// A list of plug-ins is cloned element by element, and the lists of the two are independent.
macro_rules! lists {
    ($($name:ident: $list:ident.$field:ident = |$id:ident, $two:ident| $element:expr, |$a:ident, $b:ident| $same:expr;)*) => {
        obligations! {
            $(#[kani::unwind(8)]
            fn $name() {
                let mut c = Context::new(None);
                let n = many();
                for _ in 0..n {
                    let ($id, $two): (u32, bool) = (any(), any());
                    $list(&mut c).$field.push($element);
                }
                let mut d = c.clone();
                let (lc, ld) = (lengths(&mut c), lengths(&mut d));
                let k: usize = index(8);
                check!(lc[k] == ld[k], "every list of the clone is as long as that of the original");
                if n > 0 {
                    let i = index(n);
                    let ($a, $b) = (&$list(&mut c).$field[i], &$list(&mut d).$field[i]);
                    check!($same, "every element of a cloned list equals the original");
                }
                // change one of the two; the other must keep its values
                let (x, y) = if any() { (&mut c, &mut d) } else { (&mut d, &mut c) };
                if any() {
                    let ($id, $two): (u32, bool) = (7, false);
                    $list(x).$field.push($element);
                } else {
                    unsafe { $list(x).$field.set_len(0) };
                }
                check!(lengths(y)[k] == lc[k], "the lists of the other are unchanged");
                forget((c, d));
            })*
        }
    };
}
mod each {
    use super::*;
    lists! {
        c22_clone_curves: curves_plugin.parametric_curves = |id, two| { curves(id, two) },
            |a, b| a.curves.len() == b.curves.len() && a.curves[0].function_curve_id == b.curves[0].function_curve_id
                && a.curves[0].parameter_count == b.curves[0].parameter_count && a.evaluator as usize == b.evaluator as usize;
        c22_clone_formatters: formatters_plugin.factory_list = |id, two| if two { factory_two } else { factory_one },
            |a, b| *a as usize == *b as usize;
        c22_clone_tag_types: tag_types_plugin.tag_types = |id, two| handler(id, two), |a, b| same_handler(a, b);
        c22_clone_tags: tags_plugin.tags = |id, two| TagListItem { signature: id.into(), descriptor: tag_descriptor_verif(id as usize ^ 5, vec![id.into()], if two { decide_two } else { decide_one }) },
            |a, b| a.signature == b.signature && {
                let (p, q) = (tag_descriptor_parts_verif(&a.descriptor), tag_descriptor_parts_verif(&b.descriptor));
                p.0 == q.0 && p.1.len() == q.1.len() && p.1[0] == q.1[0] && p.2 as usize == q.2 as usize
            };
        c22_clone_intents: intents_plugin.intents = |id, two| IntentsListItem { intent: id.into(), description: String::from(if two { "x" } else { "" }), link: if two { intent_two } else { intent_one } },
            |a, b| a.intent == b.intent && a.description.len() == b.description.len() && a.link as usize == b.link as usize;
        c22_clone_mpe_types: mpe_types_plugin.tag_types = |id, two| handler(id, two), |a, b| same_handler(a, b);
        c22_clone_optimizations: optimization_plugin.optimization_collection = |id, two| OptimizationCollectionItem { optimize_ptr: if two { opt_two } else { opt_one } },
            |a, b| a.optimize_ptr as usize == b.optimize_ptr as usize;
        c22_clone_transforms: transform_plugin.transform_collection = |id, two| if two { TransformFactories::Modern(transform_two) } else { TransformFactories::Legacy(transform_one) },
            |a, b| match (a, b) {
                (TransformFactories::Legacy(f), TransformFactories::Legacy(g)) => *f as usize == *g as usize,
                (TransformFactories::Modern(f), TransformFactories::Modern(g)) => *f as usize == *g as usize,
                _ => false,
            };
    }
}
fn handler(id: u32, two: bool) -> TypeHandler {
    type_handler_verif(id.into(), id ^ 9, if two { read_two } else { read_one }, if two { write_one } else { write_two })
}
fn same_handler(a: &TypeHandler, b: &TypeHandler) -> bool {
    let (p, q) = (type_handler_parts_verif(a), type_handler_parts_verif(b));
    p.0 == q.0 && p.1 == q.1 && p.2 as usize == q.2 as usize && p.3 as usize == q.3 as usize
}

type Curves = <ParametricCurvesCollection as IntoIterator>::Item;
fn evaluate_one(_: i32, _: &[f64], _: f64) -> f64 {
    1.0
}
fn evaluate_two(_: i32, _: &[f64], _: f64) -> f64 {
    2.0
}
fn curves(id: u32, two: bool) -> Curves {
    let mut p = Curves::default();
    unsafe { p.curves.set_len(1) };
    p.curves[0].function_curve_id = id as i32;
    p.curves[0].parameter_count = id ^ 3;
    p.evaluator = if two { evaluate_two } else { evaluate_one };
    p
}
#[cfg(not(kani))]
pub fn list() -> Vec<(&'static str, fn())> {
    let mut l = each::list();
    l.extend(values::list());
    l
}
mod values {
    use super::*;
obligations! {
    #[kani::unwind(8)]
    fn c22_new() {
        let (d, want) = any_data();
        let mut c = Context::new(d);
        check!(has_data(&c, &want), "the context holds the user data it was given");
        is_default(&mut c);
        // the default handler ignores errors
        let k: usize = any();
        assume(k < 14);
        c.signal_error(CODES[k], "ignored");
        check!(has_data(&c, &want), "ignoring an error changes nothing");
        is_default(&mut c);
        forget(c);
    }
    #[kani::unwind(8)]
    fn c22_clone_of_values() {
        let (d, want) = any_data();
        let mut c = Context::new(d);
        let (i, a): (usize, u16) = (any(), any());
        assume(i < 16);
        let s: f64 = any();
        assume(!s.is_nan());
        alarm_codes(&mut c).alarm_codes[i] = a;
        adaption_state(&mut c).adaption_state = s;
        set_error_handler(&mut c, handler_one);
        interpolation_plugin(&mut c).interpolators = interpolate_two;
        let mut d = c.clone();
        check!(interpolation_plugin(&mut d).interpolators as usize == interpolate_two as usize, "the interpolation is cloned");
        check!(has_data(&d, &want), "the user data is cloned");
        let j: usize = any();
        assume(j < 16);
        check!(alarm_codes(&mut d).alarm_codes[j] == alarm_codes(&mut c).alarm_codes[j], "the alarm codes are cloned");
        check!(adaption_state(&mut d).adaption_state == s, "the adaption state is cloned");
        check!(error_handler(&d) as usize == handler_one as usize, "the error handler is cloned");
        // change one of the two; the other must keep its values
        let swap: bool = any();
        let (x, y) = if swap { (&mut c, &mut d) } else { (&mut d, &mut c) };
        alarm_codes(x).alarm_codes[i] = a ^ 1;
        adaption_state(x).adaption_state = 0.25;
        set_error_handler(x, handler_two);
        interpolation_plugin(x).interpolators = interpolate_one;
        if let Some(b) = user_data(x) {
            reach!(b.len() > 1000, "user data");
            if want.at < b.len() {
                b[want.at] ^= 0xFF;
            }
        }
        check!(has_data(y, &want), "the user data of the other is unchanged");
        check!(alarm_codes(y).alarm_codes[i] == a, "the alarm codes of the other are unchanged");
        check!(adaption_state(y).adaption_state == s, "the adaption state of the other is unchanged");
        check!(error_handler(y) as usize == handler_one as usize, "the error handler of the other is unchanged");
        check!(interpolation_plugin(y).interpolators as usize == interpolate_two as usize, "the interpolation of the other is unchanged");
        forget((c, d));
    }
}
}
