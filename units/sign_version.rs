#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::cmp::Ordering;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/seek.rs
//@include inc/names.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/pboheader.rs
//@include inc/pbolayout.rs
//@include inc/pbohash.rs
//@include inc/pbocheckspec.rs
/// std::ffi::OsStr / std::path::PathBuf (assumed contract: ext_of is what Path::extension says)
#[verifier::external_body] pub struct OsStr { x: int }
impl OsStr {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(s: &str) -> (r: &OsStr) ensures r.v() == s@ { unimplemented!() }
}
#[verifier::external_body] pub struct PathBuf { x: int }
impl PathBuf {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from(s: &str) -> (r: PathBuf) ensures r.v() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(e) => ext_of(self.v()) == Some(e.v()), None => ext_of(self.v()) is None } { unimplemented!() }
}
pub trait ContainsX { spec fn has(&self, e: Seq<char>) -> bool; fn contains_(&self, e: &OsStr) -> (r: bool) ensures r == self.has(e.v()); }
impl<'a, const N: usize> ContainsX for [&'a OsStr; N] {
    open spec fn has(&self, e: Seq<char>) -> bool { exists|i: int| 0 <= i < N && (#[trigger] self@[i]).v() == e }
    #[verifier::external_body] fn contains_(&self, e: &OsStr) -> bool { unimplemented!() }
}
impl BISignVersion {
//@extract libs/common/src/sign_version.rs | impl BISignVersion @ fn should_hash_file
//@sub \.unwrap_or_else\(\|\| OsStr::new\(""\)\) ==> .unwrap_or(OsStr::new(""))
//@sub \.contains\(&ext\) ==> .contains_(ext)
//@spec
    ensures r == covers_name(*self, name@)
//@end
//@extract libs/common/src/sign_version.rs | impl BISignVersion @ fn nothing
//@spec
    ensures r@ == nothing_text(*self)
//@end
}
//@extract libs/common/src/sign_version.rs | impl From<BISignVersion> for u32 @ fn from
//@sub fn from\(v: BISignVersion\) -> Self ==> fn u32_from_version(v: BISignVersion) -> u32
//@spec
    ensures r == (match v { BISignVersion::V2 => 2u32, BISignVersion::V3 => 3u32 })
//@end
}
fn main(){}
