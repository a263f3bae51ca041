// ---------------------------------------------------------------- models of what the codec uses (assumed contracts)
#[verifier::external_body] pub struct Why { x: u8 }
#[verifier::external_body] pub fn shown(b: &[u8; 4]) -> (r: Why) { unimplemented!() }
pub enum Error {
    Io(IoError), UnsupportedP3DType(Why), UnsupportedLODType(Why), UnexpectedBytesTagg(Why),
    ExceededMaxLodCount(u64), ExceededMaxVertexCount(u64), ExceededMaxFaceCount(u64), ExceededMaxFaceNormalCount(u64),
    ExceededMaxPointCount(u64), ExceededTaggLength(u64), InvalidFaceVertexCount(u32),
}
impl From<IoError> for Error { #[verifier::external_body] fn from(e: IoError) -> Error { Error::Io(e) } }
pub trait Seek {}
/// byteorder's floats: the bits, as a 32-bit number
pub trait ReadFloat: Read {
    fn read_f32<E>(&mut self) -> (r: io::Result<f32>)
        ensures
            r is Err ==> Self::faulty() || old(self).rest().len() < 4,
            r is Ok ==> old(self).rest().len() >= 4 && r->Ok_0.to_bits_spec() == de32(old(self).rest().take(4)) && final(self).rest() == old(self).rest().skip(4);
}
impl<T: Read> ReadFloat for T { #[verifier::external_body] fn read_f32<E>(&mut self) -> io::Result<f32> { unimplemented!() } }
pub trait WriteFloat: Write {
    fn write_f32<E>(&mut self, x: f32) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty(), r is Ok ==> final(self).written() == old(self).written() + le32(x.to_bits_spec());
}
impl<T: Write> WriteFloat for T { #[verifier::external_body] fn write_f32<E>(&mut self, x: f32) -> io::Result<()> { unimplemented!() } }

/// std's default Iterator::nth on bytes(): n + 1 bytes are taken, or as many as there are
impl<'a, R: Read> Bytes<'a, R> {
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<io::Result<u8>>)
        ensures *final(final(self).inner) == *final(old(self).inner), final(self).inner.rest().len() <= old(self).inner.rest().len(), !R::faulty() ==> final(self).inner.rest() == over(old(self).inner.rest(), (n + 1) as nat)
    { unimplemented!() }
}
/// a buffer of bytes that read_exact can fill
pub trait Buffer { spec fn b(&self) -> Seq<u8>; }
impl Buffer for [u8; 4] { open spec fn b(&self) -> Seq<u8> { self@ } }
impl Buffer for Box<[u8]> { open spec fn b(&self) -> Seq<u8> { self@ } }
pub trait ReadExact: Read {
    fn read_exact<B: Buffer>(&mut self, buf: &mut B) -> (r: io::Result<()>)
        ensures
            final(buf).b().len() == old(buf).b().len(),
            r is Err ==> Self::faulty() || old(self).rest().len() < old(buf).b().len(),
            r is Ok ==> old(self).rest().len() >= old(buf).b().len() && final(buf).b() == old(self).rest().take(old(buf).b().len() as int)
                && final(self).rest() == old(self).rest().skip(old(buf).b().len() as int);
}
impl<T: Read> ReadExact for T { #[verifier::external_body] fn read_exact<B: Buffer>(&mut self, buf: &mut B) -> io::Result<()> { unimplemented!() } }
/// Vec::into_boxed_slice
#[verifier::external_body] pub fn boxed(v: Vec<u8>) -> (r: Box<[u8]>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn is_mark(b: &[u8; 4], m: &[u8; 4]) -> (r: bool) ensures r == (b[0] == m[0] && b[1] == m[1] && b[2] == m[2] && b[3] == m[3]) { unimplemented!() }
/// std::io::BufReader: delivers the bytes of the reader it wraps (and may take more of them than it delivers)
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct BufReader<'a, R> { x: &'a mut R }
impl<'a, R: Read> BufReader<'a, R> {
    #[verifier::external_body] pub fn new(input: &'a mut R) -> (r: BufReader<'a, R>) ensures r.rest() == old(input).rest() { unimplemented!() }
}
impl<'a, R: Read> Read for BufReader<'a, R> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    open spec fn faulty() -> bool { R::faulty() }
    #[verifier::external_body] fn read_byte(&mut self) -> (r: Option<io::Result<u8>>) { unimplemented!() }
}
impl<'a, R: Read> Seek for BufReader<'a, R> {}
/// std::io::BufWriter over a writer: it keeps what it accepts; only a flush that succeeds puts all of it into
/// the writer it was made over (what is done when it is dropped may fail unseen).  The writer is named
/// again at the flush instead of being held.
#[verifier::external_body] #[verifier::reject_recursive_types(W)] pub struct BufWriter<W> { x: Vec<W> }
impl<W: Write> BufWriter<W> {
    #[verifier::external_body] pub fn over(output: &W) -> (r: BufWriter<W>) ensures r.written() == output.written() { unimplemented!() }
    #[verifier::external_body] pub fn flush_into(&mut self, output: &mut W) -> (r: io::Result<()>)
        ensures r is Err ==> W::wfaulty(), r is Ok ==> final(output).written() == old(self).written() && final(self).written() == old(self).written()
    { unimplemented!() }
}
impl<W: Write> Write for BufWriter<W> {
    uninterp spec fn written(&self) -> Seq<u8>;
    open spec fn wfaulty() -> bool { W::wfaulty() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> io::Result<()> { unimplemented!() }
}
pub uninterp spec fn bytes_of_string(s: &String) -> &[u8];
pub broadcast axiom fn bytes_of_string_ax(s: &String) ensures (#[trigger] bytes_of_string(s))@ == encode_utf8(s@);
pub uninterp spec fn bytes_of_str(s: &str) -> &[u8];
pub broadcast axiom fn bytes_of_str_ax(s: &str) ensures (#[trigger] bytes_of_str(s))@ == encode_utf8(s@);
impl AsRef<[u8]> for &String { open spec fn ar(&self) -> &[u8] { bytes_of_string(*self) } #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }
impl AsRef<[u8]> for &str { open spec fn ar(&self) -> &[u8] { bytes_of_str(*self) } #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }
#[verifier::external_body] pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
