pub trait WritePbo {
    spec fn pbo_bytes(&self) -> Seq<u8>;
    fn write_pbo<O: Write>(&self, output: &mut O) -> (r: Result<(), Error>)
        ensures r is Err ==> O::wfaulty(), r is Ok ==> final(output).written() == old(output).written() + self.pbo_bytes();
}
impl WritePbo for Header {
    open spec fn pbo_bytes(&self) -> Seq<u8> { self.hv().bytes() }
    // proved for the real function in unit pbo_header
    #[verifier::external_body] fn write_pbo<O: Write>(&self, output: &mut O) -> Result<(), Error> { unimplemented!() }
}
pub uninterp spec fn bytes_of_string(s: &String) -> &[u8];
pub broadcast axiom fn bytes_of_string_ax(s: &String) ensures (#[trigger] bytes_of_string(s))@ == encode_utf8(s@);
pub uninterp spec fn bytes_of_array<const N: usize>(s: &[u8; N]) -> &[u8];
pub broadcast axiom fn bytes_of_array_ax<const N: usize>(s: &[u8; N]) ensures (#[trigger] bytes_of_array(s))@ == s@;
impl<const N: usize> AsRef<[u8]> for &[u8; N] { open spec fn ar(&self) -> &[u8] { bytes_of_array(*self) } #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }
impl AsRef<[u8]> for &String { open spec fn ar(&self) -> &[u8] { bytes_of_string(*self) } #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }
impl AsRef<[u8]> for &[u8] { open spec fn ar(&self) -> &[u8] { *self } #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }

impl Clone for Header {
    #[verifier::external_body] fn clone(&self) -> (r: Header) ensures r.hv() == self.hv() { unimplemented!() }
}
pub struct Checksum(pub [u8; 20]);
impl Checksum {
    #[verifier::external_body] pub fn from_vec(v: Vec<u8>) -> (r: Checksum) requires v@.len() == 20 ensures r.0@ == v@ { unimplemented!() }
}
#[verifier::external_body] pub fn expect_some<T>(o: Option<T>, m: &str) -> (r: T) requires o is Some ensures o == Some(r) { unimplemented!() }

