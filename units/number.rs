#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
pub use std::ops::Range;
pub assume_specification<Idx: Clone>[ <Range<Idx> as Clone>::clone ](r: &Range<Idx>) -> (o: Range<Idx>) ensures o == *r;
// ---------------------------------------------------------------- f64 and f32
/// f64: only what is needed of whole numbers is interpreted
#[verifier::external_body] #[derive(Clone, Copy, Debug)] pub struct D { x: f64 }
#[verifier::external_body] #[derive(Clone, Copy, Debug)] pub struct F { x: f32 }
/// finite and without a fraction, and which integer it is
pub uninterp spec fn whole(d: D) -> bool;
pub uninterp spec fn val(d: D) -> int;
pub uninterp spec fn other_order(a: D, b: D) -> Option<Ordering>;
pub uninterp spec fn d_neg(d: D) -> D;
pub uninterp spec fn f_neg(f: F) -> F;
/// the single-precision float nearest to d
pub uninterp spec fn nearest(d: D) -> F;
pub broadcast axiom fn axiom_neg(d: D) ensures #[trigger] whole(d_neg(d)) == whole(d), whole(d) ==> val(d_neg(d)) == -val(d);
impl PartialEq for D { #[verifier::external_body] fn eq(&self, o: &D) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for D {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &D) -> bool { if whole(*self) && whole(*o) { val(*self) == val(*o) } else { other_order(*self, *o) == Some(Ordering::Equal) } }
}
impl PartialOrd for D { #[verifier::external_body] fn partial_cmp(&self, o: &D) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for D {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &D) -> Option<Ordering> {
        if whole(*self) && whole(*o) { Some(if val(*self) < val(*o) { Ordering::Less } else if val(*self) == val(*o) { Ordering::Equal } else { Ordering::Greater }) } else { other_order(*self, *o) }
    }
}
impl std::ops::Neg for D { type Output = D; #[verifier::external_body] fn neg(self) -> D { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for D { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> D { d_neg(self) } }
impl std::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { f_neg(self) } }
#[verifier::external_body] pub fn is_whole(d: D) -> (r: bool) ensures r == whole(d) { unimplemented!() }
/// f64::from(i32)
#[verifier::external_body] pub fn d_of_i32(v: i32) -> (r: D) ensures whole(r), val(r) == v { unimplemented!() }
/// v as f64: exact up to 2^53 and for -2^63; rounded otherwise
#[verifier::external_body] pub fn d_of_i64(v: i64) -> (r: D) ensures whole(r), (-0x20_0000_0000_0000 <= v <= 0x20_0000_0000_0000 || v == i64::MIN) ==> val(r) == v { unimplemented!() }
/// as i32, as i64: exact when it fits, saturating otherwise
#[verifier::external_body] pub fn d_i32(d: D) -> (r: i32) ensures whole(d) && i32::MIN <= val(d) <= i32::MAX ==> r == val(d) { unimplemented!() }
#[verifier::external_body] pub fn d_i64(d: D) -> (r: i64) ensures whole(d) && i64::MIN <= val(d) <= i64::MAX ==> r == val(d), whole(d) && val(d) > i64::MAX ==> r == i64::MAX, whole(d) && val(d) < i64::MIN ==> r == i64::MIN { unimplemented!() }
#[verifier::external_body] pub fn d_f32(d: D) -> (r: F) ensures r == nearest(d) { unimplemented!() }
#[verifier::external_body] pub fn i32_of(v: i64) -> (r: Result<i32, ()>) ensures r is Ok <==> i32::MIN <= v <= i32::MAX, r is Ok ==> r->Ok_0 == v { unimplemented!() }
// ---------------------------------------------------------------- arithmetic (unit math)
/// The value of an expression, None if it has none: hemtt_common::math::eval, under contract in unit math.
pub uninterp spec fn expression_value(s: Seq<char>) -> Option<D>;
#[verifier::external_body] pub fn math_eval(s: &str) -> (r: Option<D>) ensures r == expression_value(s@) { unimplemented!() }
// ---------------------------------------------------------------- numbers of a config
//@extract libs/config/src/model/number.rs | enum Number
//@sub \bf32\b ==> F
//@end
/// The number with value d: an integer when it is whole and fits, in 32 bits if possible; otherwise the nearest float.
pub open spec fn number_of(d: D, span: Range<usize>) -> Number {
    if whole(d) && i32::MIN <= val(d) <= i32::MAX { Number::Int32 { value: val(d) as i32, span } }
    else if whole(d) && i64::MIN <= val(d) <= i64::MAX { Number::Int64 { value: val(d) as i64, span } }
    else { Number::Float32 { value: nearest(d), span } }
}
/// The integer v with the smallest tag that holds it.
pub open spec fn integer(v: int, span: Range<usize>) -> Number { if i32::MIN <= v <= i32::MAX { Number::Int32 { value: v as i32, span } } else { Number::Int64 { value: v as i64, span } } }
pub open spec fn negated(n: Number) -> Number {
    match n {
        Number::Int32 { value, span } => integer(-(value as int), span),
        Number::Int64 { value, span } => integer(-(value as int), span),
        Number::Float32 { value, span } => Number::Float32 { value: f_neg(value), span },
    }
}
/// Numbers that have a negation of their own type (every literal is one of them: a literal has no sign).
pub open spec fn unsigned(n: Number) -> bool { match n { Number::Int32 { value, .. } => value >= 0, Number::Int64 { value, .. } => value >= 0, Number::Float32 { .. } => true } }
impl Number {
//@extract libs/config/src/model/number.rs | impl Number @ fn try_evaulation
//@sub hemtt_common::math::eval\( ==> math_eval(
//@sub (\w+)\.fract\(\) == 0\.0 ==> is_whole(\1)
//@sub f64::from\((i32::M\w+)\) ==> d_of_i32(\1)
//@sub (i64::M\w+) as f64 ==> d_of_i64(\1)
//@sub value as i32 ==> d_i32(value)
//@sub value as i64 ==> d_i64(value)
//@sub value as f32 ==> d_f32(value)
//@spec
    ensures r is Some <==> expression_value(str@) is Some, r is Some ==> r->0 == number_of(expression_value(str@)->0, span)
//@entry
    broadcast use axiom_neg;
//@end
//@extract libs/config/src/model/number.rs | impl Number @ fn negate
//@sub i32::try_from\( ==> i32_of(
//@spec
    requires unsigned(*self)
    ensures r == negated(*self)
//@end
}
fn main() {}
} // verus!
