//! Round trips through the r1cs writer and reader of /repo, for symbolic execution of the LLVM code.
#![allow(dead_code, unused, unsafe_op_in_unsafe_fn)]
pub mod model;
#[no_implicit_prelude]
mod writer;
#[no_implicit_prelude]
mod reader;
extern "C" { fn vp_byte(k: u32) -> u8; fn vp_word(k: u32) -> u64; fn vp_arg(k: u32) -> u32; fn vp_skip() -> !; fn vp_fail(line: u32) -> !; }
pub fn must(c: bool) { if !c { unsafe { vp_skip() } } }
mod run {
    use crate::model::{BigInt, Elem, HashMap, Sign, String, Vec};
    use crate::{must, reader, writer};
    fn name_(b: &[u8]) -> String { let mut v = Vec::new(); v.extend_from_slice(b); String(v) }
    fn path_() -> String { String::new() }
    fn nd(k: u32) -> u64 { unsafe { crate::vp_word(k) } }
    fn ndb(k: u32) -> u8 { unsafe { crate::vp_byte(k) } }
    fn arg(k: u32) -> usize { unsafe { crate::vp_arg(k) as usize } }
    macro_rules! same { ($c:expr, $m:expr) => { if !$c { unsafe { crate::vp_fail(line!()) } } } }
    include!("scenario.rs");
    #[no_mangle]
    pub extern "C" fn vp_run(w: u32) { scenario(w) }
}
