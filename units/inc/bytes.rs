// Little-endian integers as bytes (byteorder's contract, assumed).
pub open spec fn le32(x: u32) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
pub open spec fn de32(s: Seq<u8>) -> u32 {
    (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24)
}
pub proof fn lemma_le32(x: u32)
    ensures de32(le32(x)) == x, le32(x).len() == 4
{
    assert(((x & 0xff) as u8 as u32) | ((((x >> 8) & 0xff) as u8 as u32) << 8) | ((((x >> 16) & 0xff) as u8 as u32) << 16)
        | ((((x >> 24) & 0xff) as u8 as u32) << 24) == x) by (bit_vector);
}
pub open spec fn le16(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
pub open spec fn de16(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8) }
pub proof fn lemma_le16(x: u16)
    ensures de16(le16(x)) == x, le16(x).len() == 2
{
    assert(((x & 0xff) as u8 as u16) | ((((x >> 8) & 0xff) as u8 as u16) << 8) == x) by (bit_vector);
}
pub struct LittleEndian;
pub trait WriteBytesExt: Write {
    fn write_u32<E>(&mut self, x: u32) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty(), r is Ok ==> final(self).written() == old(self).written() + le32(x);
    fn write_u16<E>(&mut self, x: u16) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty(), r is Ok ==> final(self).written() == old(self).written() + le16(x);
    fn write_u8(&mut self, x: u8) -> (r: io::Result<()>)
        ensures r is Err ==> Self::wfaulty(), r is Ok ==> final(self).written() == old(self).written().push(x);
}
impl<T: Write> WriteBytesExt for T {
    #[verifier::external_body] fn write_u32<E>(&mut self, x: u32) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write_u16<E>(&mut self, x: u16) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn write_u8(&mut self, x: u8) -> io::Result<()> { unimplemented!() }
}
pub trait ReadBytesExt: Read {
    fn read_u32<E>(&mut self) -> (r: io::Result<u32>)
        ensures
            r is Err ==> Self::faulty() || old(self).rest().len() < 4,
            r is Ok ==> old(self).rest().len() >= 4 && r->Ok_0 == de32(old(self).rest().take(4))
                && final(self).rest() == old(self).rest().skip(4);
    fn read_u16<E>(&mut self) -> (r: io::Result<u16>)
        ensures
            r is Err ==> Self::faulty() || old(self).rest().len() < 2,
            r is Ok ==> old(self).rest().len() >= 2 && r->Ok_0 == de16(old(self).rest().take(2))
                && final(self).rest() == old(self).rest().skip(2);
    fn read_u8(&mut self) -> (r: io::Result<u8>)
        ensures
            r is Err ==> Self::faulty() || old(self).rest().len() < 1,
            r is Ok ==> old(self).rest().len() >= 1 && r->Ok_0 == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1);
}
impl<T: Read> ReadBytesExt for T {
    #[verifier::external_body] fn read_u32<E>(&mut self) -> io::Result<u32> { unimplemented!() }
    #[verifier::external_body] fn read_u16<E>(&mut self) -> io::Result<u16> { unimplemented!() }
    #[verifier::external_body] fn read_u8(&mut self) -> io::Result<u8> { unimplemented!() }
}
