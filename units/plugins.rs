// Registering a chain of plug-ins of any length (C16).
use vstd::prelude::*;
use std::sync::Arc;
@SUB * TEXT
@SUB * SIGNATURES
@SUB * \bplugin\.next\.as_deref\(\) ==> following(plugin)
@SUB * \bpub data: PluginType,? ==>
@SUB src/state/context.rs \|(\w+): &mut Self, (\w+): ErrorCode, (\w+): String\| -> Result<\(\)> \{ ==> |\1: &mut Self, \2: ErrorCode, \3: String| -> (e: Result<()>) ensures e is Err, final(\1).errors@ == old(\1).errors@.push((\2, e->Err_0@)) {
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@STRUCT src/types/signature.rs Signature
pub mod signatures { pub mod plugin_type { use super::super::Signature;
@CONSTS src/types/signatures/plugin_type.rs
} }
@CONST src/lib.rs LCMS_VERSION
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
@STRUCT src/state/chunks/error_handler.rs ErrorCode
@STRUCT src/plugins/plugin.rs Plugin
type Result<T> = core::result::Result<T, String>;
/// The making of a message: any text.
#[verifier::external_body]
pub fn text() -> (r: String) { unimplemented!() }
/// Option<Arc<Plugin>>::as_deref
#[verifier::external_body]
pub fn following<'a>(p: &'a Plugin) -> (r: Option<&'a Plugin>)
    ensures match r { Some(q) => p.next is Some && *q == *p.next->Some_0, None => p.next is None }
{ p.next.as_deref() }

pub open spec fn known(t: Signature) -> bool {
    let n = t.0;
    n == 0x696e7048 || n == 0x70617248 || n == 0x66726d48 || n == 0x74797048 || n == 0x74616748
        || n == 0x696e7448 || n == 0x6d706548 || n == 0x6f707448 || n == 0x78666d48
}
pub open spec fn valid(p: Plugin) -> bool {
    p.magic.0 == 0x61637070 && p.expected_version <= 2131 && known(p.r#type)
}
/// Every plug-in of the chain is valid.
pub open spec fn all_valid(p: Plugin) -> bool
    decreases p
{
    valid(p) && (p.next is Some ==> all_valid(*p.next->Some_0))
}

/// A context, of which only the errors signalled to it matter here.
pub struct Context { pub errors: Ghost<Seq<(ErrorCode, Seq<char>)>> }
impl Context {
    /// C17
    #[verifier::external_body]
    pub fn signal_error(&mut self, code: ErrorCode, text: String)
        ensures final(self).errors@ == old(self).errors@.push((code, text@))
    { unimplemented!() }

    #[verifier::loop_isolation(false)]
@FN src/state/context.rs Context::init_plugin
        ensures
            /*NOT-VACUOUS*/ true,
            match r {
                Ok(()) => all_valid(*plugin) && final(self).errors@ == old(self).errors@,
                Err(t) => !all_valid(*plugin) && final(self).errors@ == old(self).errors@.push((ErrorCode::UnknownExtension, t@)),
            },
@START
        let ghost head = *plugin;
@LOOP while let Some\((\w+)\) = (\w+)
            invariant
                self.errors@ == old(self).errors@,
                all_valid(head) <==> ({2} is Some ==> all_valid(*{2}->Some_0)),
            decreases {2},
@END
}
} // verus!
fn main() {}
