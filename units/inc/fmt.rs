// ---------------------------------------------------------------- formatting
pub open spec fn digit_char(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
/// decimal text of a number
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit_char(n as int)] } else { dec(n / 10).push(digit_char((n % 10) as int)) } }
pub trait Disp { spec fn shown(&self) -> Seq<char>; }
impl Disp for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Disp for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Disp for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// the arguments of a format macro, put together
#[verifier::external_body] pub struct Shown { s: String }
impl Shown {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Self) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn disp<T: Disp + ?Sized>(self, x: &T) -> (r: Self) ensures r@ == self@ + x.shown() { unimplemented!() }
    #[verifier::external_body] pub fn text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// std::fmt::Formatter over a text that takes everything
#[verifier::external_body] pub struct Formatter { s: String }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.out() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn text(self) -> (r: String) ensures r@ == self.out() { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, s: Shown) -> (r: Result<(), ()>) ensures final(self).out() == old(self).out() + s@, r is Ok { unimplemented!() }
}
