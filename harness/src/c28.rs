//! C28 - kinds of plug-in payloads.
use crate::sym::*;
use lcms2::plugins::*;
use lcms2::types::*;
use lcms2::state::Context;

fn kinds(p: &PluginType) -> [bool; 9] {
    [p.is_interpolation(), p.is_parametric_curves(), p.is_formatter(), p.is_tag_type(), p.is_tag(), p.is_rendering_intent(),
     p.is_multi_process_element(), p.is_optimization(), p.is_transform()]
}
fn only(p: PluginType, i: usize) {
    let k = kinds(&p);
    std::mem::forget(p);
    let j: usize = any();
    assume(j < 9);
    reach!(j == i, "its own kind");
    check!(k[j] == (i == j), "exactly the query named after the payload answers true");
}
fn sig() -> Signature {
    Signature::from(any::<u32>())
}
fn eval(_: i32, _: &[f64], _: f64) -> f64 {
    0.0
}
fn factory(_: u32, _: u32, _: u32) -> InterpFunction {
    InterpFunction::InterpFn16(|_, _, _| {})
}

obligations! {
    fn c28_interpolation() {
        only(PluginType::Interpolation { interpolation_factory: factory }, 0)
    }
    fn c28_parametric_curve() {
        only(PluginType::ParametricCurve { num_functions: any(), function_types: any(), parameter_count: any(), evaluator: eval }, 1)
    }
    fn c28_formatter() {
        only(PluginType::Formatter { formatters_factory: |_, _, _| Formatter::Fmt16(|_, _, _, _| panic!()) }, 2)
    }
    fn c28_tag_type() {
        only(PluginType::TagType { handler: handler() }, 3)
    }
    fn c28_tag() {
        only(PluginType::Tag { signature: sig(), descriptor: tag_descriptor_verif(any(), Vec::new(), |_, _| sig()) }, 4)
    }
    fn c28_rendering_intent() {
        only(PluginType::RenderingIntent { intent: sig(), link: |_, _, _, _, _, _, _| panic!(), description: String::new() }, 5)
    }
    fn c28_multi_process_element() {
        only(PluginType::MultiProcessElement { handler: handler() }, 6)
    }
    fn c28_optimization() {
        only(PluginType::Optimization { optimizer: |_, _| None }, 7)
    }
    fn c28_transform() {
        let legacy: bool = any();
        only(PluginType::Transform { factory: if legacy { TransformFactories::Legacy(|_, _, _| None) } else { TransformFactories::Modern(|_, _, _| None) } }, 8)
    }
}
fn handler() -> TypeHandler {
    type_handler_verif(sig(), any(), |_, _, _, _, _| None, |_, _, _, _, _| None)
}
