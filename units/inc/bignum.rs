// rsa::BigUint as a natural number (assumed contract); modular power is uninterpreted.
pub open spec fn pow256(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
/// fixed-width little-endian bytes
pub open spec fn le_bytes(v: nat, n: nat) -> Seq<u8>
    decreases n
{ if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_bytes(v / 256, (n - 1) as nat) } }
pub open spec fn le_val(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) } }
pub open spec fn be_val(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { be_val(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn padto(s: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if i < s.len() { s[i] } else { 0u8 }) }
pub proof fn lemma_le_len(v: nat, n: nat) ensures le_bytes(v, n).len() == n decreases n { if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }
pub proof fn lemma_le_val(v: nat, n: nat)
    requires v < pow256(n)
    ensures le_val(le_bytes(v, n)) == v
    decreases n
{
    if n > 0 {
        lemma_le_len(v / 256, (n - 1) as nat);
        assert(v / 256 < pow256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_le_val(v / 256, (n - 1) as nat);
        assert(le_bytes(v, n).skip(1) =~= le_bytes(v / 256, (n - 1) as nat));
    }
}
/// cutting or zero-filling to a width the value fits in keeps the value
pub proof fn lemma_padto(s: Seq<u8>, n: nat)
    requires le_val(s) < pow256(n)
    ensures padto(s, n) == le_bytes(le_val(s), n)
    decreases n
{
    if n == 0 { assert(padto(s, 0) =~= Seq::<u8>::empty()); }
    else if s.len() == 0 {
        assert(pow256((n - 1) as nat) > 0) by { lemma_pow_pos((n - 1) as nat); }
        lemma_padto(s, (n - 1) as nat);
        assert(padto(s, n) =~= seq![0u8] + padto(s, (n - 1) as nat));
    } else {
        let v = le_val(s);
        let w = le_val(s.skip(1));
        assert(v == s[0] as nat + 256 * w);
        assert(v % 256 == s[0] && v / 256 == w) by (nonlinear_arith) requires v == s[0] as nat + 256 * w, s[0] < 256;
        assert(w < pow256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * pow256((n - 1) as nat), v == s[0] as nat + 256 * w;
        lemma_padto(s.skip(1), (n - 1) as nat);
        assert(padto(s, n) =~= seq![s[0]] + padto(s.skip(1), (n - 1) as nat));
    }
}
pub proof fn lemma_pow_pos(n: nat) ensures pow256(n) > 0 decreases n { if n > 0 { lemma_pow_pos((n - 1) as nat); } }
pub proof fn lemma_le32_bytes(x: u32)
    ensures le_bytes(x as nat, 4) == le32(x), (x as nat) < pow256(4)
{
    reveal_with_fuel(le_bytes, 5);
    reveal_with_fuel(pow256, 5);
    assert((x & 0xff) as u8 == x % 256 && ((x >> 8) & 0xff) as u8 == (x / 256) % 256 && ((x >> 16) & 0xff) as u8 == (x / 65536) % 256 && ((x >> 24) & 0xff) as u8 == (x / 16777216) % 256) by (bit_vector);
    let v = x as nat;
    assert(v / 256 / 256 == v / 65536 && v / 256 / 256 / 256 == v / 16777216);
    assert(le_bytes(v, 4) =~= le32(x));
}
pub proof fn lemma_pow4() ensures pow256(4) == 0x1_0000_0000 { reveal_with_fuel(pow256, 5); }
pub proof fn lemma_be_bound(s: Seq<u8>)
    ensures be_val(s) < pow256(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_be_bound(s.drop_last());
        let a = be_val(s.drop_last());
        let p = pow256((s.len() - 1) as nat);
        assert(a * 256 + (s.last() as nat) < 256 * p) by (nonlinear_arith) requires a < p, (s.last() as nat) < 256;
    }
}
pub proof fn lemma_be_zero(s: Seq<u8>)
    requires s.len() > 0, s[0] == 0
    ensures be_val(s) == be_val(s.skip(1))
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::<u8>::empty()); assert(s.skip(1) =~= Seq::<u8>::empty()); assert(be_val(s.drop_last()) == 0); }
    else {
        lemma_be_zero(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
    }
}
pub uninterp spec fn modpow(a: nat, e: nat, m: nat) -> nat;
#[verifier::external_body] pub struct BigUint { x: int }
impl BigUint {
    pub uninterp spec fn val(&self) -> nat;
    #[verifier::external_body] pub fn from_bytes_le(b: &[u8]) -> (r: BigUint) ensures r.val() == le_val(b@) { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r.val() == be_val(b@) { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes_le(&self) -> (r: Vec<u8>) ensures le_val(r@) == self.val() { unimplemented!() }
    #[verifier::external_body] pub fn new(d: Vec<u32>) -> (r: BigUint) requires d@.len() == 1 ensures r.val() == d@[0] { unimplemented!() }
    #[verifier::external_body] pub fn modpow(&self, e: &BigUint, m: &BigUint) -> (r: BigUint)
        requires m.val() != 0
        ensures r.val() == modpow(self.val(), e.val(), m.val())
    { unimplemented!() }
}
impl Clone for BigUint { #[verifier::external_body] fn clone(&self) -> (r: BigUint) ensures r.val() == self.val() { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigUint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigUint) -> bool { self.val() == o.val() }
}
impl PartialEq for BigUint { #[verifier::external_body] fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigUint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<Ordering> { if self.val() < o.val() { Some(Ordering::Less) } else if self.val() > o.val() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
}
impl PartialOrd for BigUint { #[verifier::external_body] fn partial_cmp(&self, o: &BigUint) -> Option<Ordering> { unimplemented!() } }
/// Read::read_exact
pub trait ReadExact: Read {
    fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: io::Result<()>)
        ensures
            final(b)@.len() == old(b)@.len(),
            r is Err ==> Self::faulty() || old(self).rest().len() < old(b)@.len(),
            r is Ok ==> old(self).rest().len() >= old(b)@.len() && final(b)@ == old(self).rest().take(old(b)@.len() as int)
                && final(self).rest() == old(self).rest().skip(old(b)@.len() as int);
}
impl<T: Read> ReadExact for T { #[verifier::external_body] fn read_exact(&mut self, b: &mut Vec<u8>) -> io::Result<()> { unimplemented!() } }
