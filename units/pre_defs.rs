#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/fmt.rs
//@include inc/symbols.rs assumed
//@include inc/symis.rs
//@include inc/stream.rs
//@include inc/defs.rs
//@include inc/defs_fns.rs
}
fn main(){}
