// std::io::Write with a fixed amount of room (assumed contracts): the bytes accepted so far, the bytes it still takes.
pub struct IoError;
pub mod io {
    pub type Result<T> = core::result::Result<T, super::IoError>;
    pub type Error = super::IoError;
}
pub trait Write: Sized {
    spec fn written(&self) -> Seq<u8>;
    spec fn room(&self) -> int;
    spec fn wfaulty() -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < buf@.len(),
            r is Ok ==> final(self).written() == old(self).written() + buf@ && final(self).room() == old(self).room() - buf@.len();
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures r is Err ==> Self::wfaulty(),
            r is Ok ==> r->Ok_0 <= buf@.len() && final(self).written() == old(self).written() + buf@.take(r->Ok_0 as int) && final(self).room() == old(self).room() - r->Ok_0,
            r is Ok && buf@.len() > 0 && old(self).room() > 0 ==> r->Ok_0 > 0;
}
/// contracts of hemtt_common::io (proved for the real functions in unit io) and byteorder (assumed)
pub trait WriteExt: Write {
    fn write_compressed_int(&mut self, x: u32) -> (r: io::Result<usize>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < enc(x as nat).len(),
            r is Ok ==> final(self).written() == old(self).written() + enc(x as nat) && final(self).room() == old(self).room() - enc(x as nat).len() && r->Ok_0 == enc(x as nat).len();
    fn write_cstring(&mut self, s: &str) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < cs(s@).len(),
            r is Ok ==> final(self).written() == old(self).written() + cs(s@) && final(self).room() == old(self).room() - cs(s@).len();
    fn write_u32<E>(&mut self, x: u32) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < 4, r is Ok ==> final(self).written() == old(self).written() + le32(x) && final(self).room() == old(self).room() - 4;
    fn write_i32<E>(&mut self, x: i32) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < 4, r is Ok ==> final(self).written() == old(self).written() + le32(x as u32) && final(self).room() == old(self).room() - 4;
    fn write_i64<E>(&mut self, x: i64) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < 8, r is Ok ==> final(self).written() == old(self).written() + le64(x as u64) && final(self).room() == old(self).room() - 8;
    fn write_f32<E>(&mut self, x: f32) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty() || old(self).room() < 4, r is Ok ==> final(self).written() == old(self).written() + le32(bits(x)) && final(self).room() == old(self).room() - 4;
}
impl<T: Write> WriteExt for T {
    #[verifier::external_body] fn write_compressed_int(&mut self, x: u32) -> io::Result<usize> { unimplemented!() }
    #[verifier::external_body] fn write_cstring(&mut self, s: &str) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write_u32<E>(&mut self, x: u32) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write_i32<E>(&mut self, x: i32) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write_i64<E>(&mut self, x: i64) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write_f32<E>(&mut self, x: f32) -> io::Result<()> { unimplemented!() }
}
pub struct LittleEndian;
/// the bit pattern of a float
pub uninterp spec fn bits(x: f32) -> u32;
pub open spec fn cs(s: Seq<char>) -> Seq<u8> { encode_utf8(s) + seq![0u8] }
pub open spec fn le32(x: u32) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
pub open spec fn le64(x: u64) -> Seq<u8> { le32((x & 0xffff_ffff) as u32) + le32((x >> 32) as u32) }
/// std::io::Cursor over a fixed buffer that starts as zeros
#[verifier::external_body] pub struct Cursor { x: u8 }
impl Cursor {
    #[verifier::external_body] pub fn new(b: Zeros) -> (r: Cursor) ensures r.written() == Seq::<u8>::empty(), r.room() == b.n() { unimplemented!() }
    #[verifier::external_body] pub fn get_ref(&self) -> (r: &Vec<u8>) ensures self.room() == 0 ==> r@ == self.written(), r@.len() == self.written().len() + self.room() { unimplemented!() }
}
impl Write for Cursor {
    uninterp spec fn written(&self) -> Seq<u8>;
    uninterp spec fn room(&self) -> int;
    open spec fn wfaulty() -> bool { false }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> io::Result<usize> { unimplemented!() }
}
/// `vec![0; n].into_boxed_slice()`
#[verifier::external_body] pub struct Zeros { x: u8 }
impl Zeros { pub uninterp spec fn n(&self) -> int; #[verifier::external_body] pub fn new(n: usize) -> (r: Zeros) ensures r.n() == n { unimplemented!() } }
pub fn must_hold(b: bool) requires b {}
