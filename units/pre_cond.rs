#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/tokens.rs
//@include inc/ifstate.rs
#[verifier::external_body] pub struct Pragma { x: int }
#[derive(Clone, Copy)] pub enum Flag { Pw3IgnoreFormat, Pe23IgnoreIfHasInclude }
#[derive(Clone, Copy)] pub enum Scope { Line, File, Config }
impl Pragma {
    pub uninterp spec fn flagged(&self, f: Flag) -> bool;
    pub uninterp spec fn after_line(&self) -> Pragma;
    #[verifier::external_body] pub fn clear_line(&mut self) ensures *final(self) == old(self).after_line() { unimplemented!() }
    #[verifier::external_body] pub fn is_flagged(&self, f: &Flag) -> (r: bool) ensures r == self.flagged(*f) { unimplemented!() }
    #[verifier::external_body] pub fn suppress(&mut self, code: &Arc<Token>, scope: Scope) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] pub fn flag(&mut self, code: &Arc<Token>, scope: Scope) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] pub fn child(&self) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn root() -> Self { unimplemented!() }
}
//@include inc/prews.rs
//@include inc/prehelp.rs
//@include inc/precond_rest.rs
}
fn main(){}
