// ---------------------------------------------------------------- what the texture code uses (assumed contracts)
/// std::io::Read and byteorder over a device that can seek: its contents stay, its position advances by what was read
pub open spec fn moved<I: Seek>(old: I, new: I, n: int) -> bool { new.data() == old.data() && new.pos() == old.pos() + n }
/// the bytes still ahead
pub open spec fn ahead<I: Seek>(i: I) -> Seq<u8> { tail_of(i.data(), i.pos()) }
pub open spec fn inside<I: Seek>(i: I) -> bool { 0 <= i.pos() }
pub open spec fn de24(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) }
pub open spec fn le24(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8] }
/// a buffer of bytes that read_exact can fill
pub trait Buffer { spec fn b(&self) -> Seq<u8>; }
impl<const N: usize> Buffer for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } }
impl Buffer for Box<[u8]> { open spec fn b(&self) -> Seq<u8> { self@ } }
pub trait Dev: Seek {
    fn read_u16<E>(&mut self) -> (r: io::Result<u16>)
        ensures
            r is Err ==> Self::sfaulty() || ahead(*old(self)).len() < 2,
            r is Ok ==> ahead(*old(self)).len() >= 2 && moved(*old(self), *final(self), 2) && r->Ok_0 == de16(ahead(*old(self)).take(2));
    fn read_u24<E>(&mut self) -> (r: io::Result<u32>)
        ensures
            r is Err ==> Self::sfaulty() || ahead(*old(self)).len() < 3,
            r is Ok ==> ahead(*old(self)).len() >= 3 && moved(*old(self), *final(self), 3) && r->Ok_0 == de24(ahead(*old(self)).take(3));
    fn read_u32<E>(&mut self) -> (r: io::Result<u32>)
        ensures
            r is Err ==> Self::sfaulty() || ahead(*old(self)).len() < 4,
            r is Ok ==> ahead(*old(self)).len() >= 4 && moved(*old(self), *final(self), 4) && r->Ok_0 == de32(ahead(*old(self)).take(4));
    fn read_exact<B: Buffer>(&mut self, buf: &mut B) -> (r: io::Result<()>)
        ensures
            final(buf).b().len() == old(buf).b().len(),
            r is Err ==> Self::sfaulty() || ahead(*old(self)).len() < old(buf).b().len(),
            r is Ok ==> ahead(*old(self)).len() >= old(buf).b().len() && moved(*old(self), *final(self), old(buf).b().len() as int)
                && final(buf).b() == ahead(*old(self)).take(old(buf).b().len() as int);
}
impl<T: Seek> Dev for T {
    #[verifier::external_body] fn read_u16<E>(&mut self) -> io::Result<u16> { unimplemented!() }
    #[verifier::external_body] fn read_u24<E>(&mut self) -> io::Result<u32> { unimplemented!() }
    #[verifier::external_body] fn read_u32<E>(&mut self) -> io::Result<u32> { unimplemented!() }
    #[verifier::external_body] fn read_exact<B: Buffer>(&mut self, buf: &mut B) -> io::Result<()> { unimplemented!() }
}
/// byteorder's write_u24 panics when the value needs more than three bytes
pub trait WriteU24: Write {
    fn write_u24<E>(&mut self, x: u32) -> (r: io::Result<()>)
        requires x <= 0xff_ffff
        ensures r is Err ==> Self::wfaulty(), r is Ok ==> final(self).written() == old(self).written() + le24(x);
}
impl<T: Write> WriteU24 for T { #[verifier::external_body] fn write_u24<E>(&mut self, x: u32) -> io::Result<()> { unimplemented!() } }
/// Vec::into_boxed_slice, <[u8]>::to_vec
#[verifier::external_body] pub fn boxed(v: Vec<u8>) -> (r: Box<[u8]>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn unboxed(v: &Box<[u8]>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() }
/// str::from_utf8(..).. == Ok(text) for a text of single-byte characters: the bytes are the same
#[verifier::external_body] pub fn is_mark(b: &[u8; 4], m: &[u8; 4]) -> (r: bool) ensures r == (b@ =~= m@) { unimplemented!() }
pub struct Utf8Error;
#[verifier::external_body] pub fn utf8(b: &[u8; 4]) -> (r: Result<&str, Utf8Error>)
    ensures match r { Ok(t) => valid_utf8(b@) && t@ == decode_utf8(b@), Err(_) => !valid_utf8(b@) }
{ unimplemented!() }
/// the four bytes of a slice as a number: clone_from_slice (panics if the lengths differ) and u32::from_le_bytes
#[verifier::external_body] pub fn copy4(to: &mut [u8; 4], v: &Vec<u8>, a: usize, e: usize)
    requires a + 4 == e, e <= v@.len()
    ensures final(to)@ =~= v@.subrange(a as int, e as int)
{ unimplemented!() }
#[verifier::external_body] pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == de32(b@) { unimplemented!() }
pub fn max_u8(a: u8, b: u8) -> (r: u8) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
/// std::collections::HashMap with texts as keys
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl HashMap<String, Vec<u8>> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, Seq<u8>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: Vec<u8>) -> (r: Option<Vec<u8>>) ensures final(self).m() == old(self).m().insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Vec<u8>>)
        ensures match r { Some(v) => self.m().contains_key(k@) && v@ == self.m()[k@], None => !self.m().contains_key(k@) }
    { unimplemented!() }
}
pub assume_specification[ usize::next_multiple_of ](a: usize, b: usize) -> (r: usize)
    requires b != 0, a + b - 1 <= usize::MAX
    ensures r == (a + b - 1) / (b as int) * b;

// ---------------------------------------------------------------- texpresso: block compression
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Format { Bc1, Bc2, Bc3, Bc4, Bc5 }
pub struct Params;
impl Params { pub fn default() -> Params { Params } }
pub open spec fn block_size(f: Format) -> nat { match f { Format::Bc1 | Format::Bc4 => 8, _ => 16 } }
/// the room the blocks of 4 by 4 of a picture need
pub open spec fn room(f: Format, w: nat, h: nat) -> nat { ((w + 3) / 4) * ((h + 3) / 4) * block_size(f) }
/// what the library makes of the pixels, and of the blocks
pub uninterp spec fn squeezed(f: Format, px: Seq<u8>, w: nat, h: nat) -> Seq<u8>;
pub uninterp spec fn picture(f: Format, blocks: Seq<u8>, w: nat, h: nat) -> Seq<u8>;
impl Format {
    #[verifier::external_body] pub fn compressed_size(self, w: usize, h: usize) -> (r: usize)
        requires w <= 0xffff_ffff, h <= 0xffff_ffff
        ensures r as nat == if room(self, w as nat, h as nat) <= usize::MAX { room(self, w as nat, h as nat) } else { arbitrary() }
    { unimplemented!() }
    /// panics when the output is too small
    #[verifier::external_body] pub fn compress(self, rgba: &[u8], w: usize, h: usize, p: Params, out: &mut [u8])
        requires w > 0, rgba@.len() == 4 * w * h, old(out)@.len() == room(self, w as nat, h as nat)
        ensures final(out)@.len() == old(out)@.len(), final(out)@ == squeezed(self, rgba@, w as nat, h as nat)
    { unimplemented!() }
    /// works in rows of four: panics without them, and on too little data
    #[verifier::external_body] pub fn decompress(self, data: &[u8], w: usize, h: usize, out: &mut [u8])
        requires w > 0, h % 4 == 0, data@.len() >= room(self, w as nat, h as nat), old(out)@.len() == 4 * w * h
        ensures final(out)@.len() == old(out)@.len(), final(out)@ == picture(self, data@, w as nat, h as nat)
    { unimplemented!() }
}
// ---------------------------------------------------------------- hemtt_lzo (its contract is L01's: never outside the buffers)
pub uninterp spec fn unpacked(data: Seq<u8>, n: nat) -> Seq<u8>;
pub mod hemtt_lzo {
    use vstd::prelude::*;
    pub struct LzoError;
    /// into a buffer of zeros
    #[verifier::external_body] pub fn decompress_to_slice(data: &[u8], out: &mut Box<[u8]>) -> (r: core::result::Result<(), LzoError>)
        requires forall|i: int| 0 <= i < old(out)@.len() ==> old(out)@[i] == 0
        ensures final(out)@.len() == old(out)@.len(), final(out)@ == super::unpacked(data@, old(out)@.len())
    { unimplemented!() }
}
// ---------------------------------------------------------------- image
pub mod image {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct RgbaImage { x: u8 }
    pub enum DynamicImage { ImageRgba8(RgbaImage) }
    pub struct Rgba(pub [u8; 4]);
    impl RgbaImage {
        pub uninterp spec fn w(&self) -> u32;
        pub uninterp spec fn h(&self) -> u32;
        /// the pixels, row by row
        pub uninterp spec fn px(&self) -> Seq<[u8; 4]>;
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn width(&self) -> (r: u32) ensures r == self.w() { unimplemented!() }
        #[verifier::external_body] pub fn height(&self) -> (r: u32) ensures r == self.h() { unimplemented!() }
        #[verifier::external_body] pub fn pixels(&self) -> (r: Vec<Rgba>)
            ensures r@.len() == self.px().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self.px()[i], self.px().len() == self.w() * self.h()
        { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() == 4 * self.w() * self.h() { unimplemented!() }
        #[verifier::external_body] pub fn from_raw(w: u32, h: u32, buf: Vec<u8>) -> (r: Option<RgbaImage>)
            ensures (r is Some) == (buf@.len() >= 4 * w * h), r is Some ==> r->0.w() == w && r->0.h() == h && r->0.bytes() == buf@.take(4 * w * h)
        { unimplemented!() }
    }
}
