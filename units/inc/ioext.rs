// Contracts of hemtt_common::io (proved for the real functions in unit io).
pub trait WriteExt: Write {
    fn write_compressed_int(&mut self, x: u32) -> (r: io::Result<usize>)
        ensures
            r is Err ==> Self::wfaulty(),
            r is Ok ==> final(self).written() == old(self).written() + enc(x as nat)
               && r->Ok_0 == enc(x as nat).len();
    fn write_cstring<S: AsRef<[u8]>>(&mut self, s: S) -> (r: io::Result<()>)
        ensures
            r is Err ==> Self::wfaulty(),
            r is Ok ==> final(self).written() == old(self).written() + s.ar()@ + seq![0u8];
}

pub trait ReadExt: Read {
    fn read_cstring(&mut self) -> (r: io::Result<String>)
        ensures
            r is Err ==> Self::faulty(),
            r is Ok && old(self).rest().contains(0u8) ==> {
                &&& final(self).rest() == old(self).rest().skip(cstr_len(old(self).rest()) + 1)
                &&& valid_utf8(cstr(old(self).rest())) ==> encode_utf8(r->Ok_0@) == cstr(old(self).rest())
            },
            // without a NUL everything that is left is taken; bytes that are no text give no text
            r is Ok && !old(self).rest().contains(0u8) ==> {
                &&& final(self).rest() == Seq::<u8>::empty()
                &&& valid_utf8(old(self).rest()) ==> encode_utf8(r->Ok_0@) == old(self).rest()
                &&& !valid_utf8(old(self).rest()) ==> r->Ok_0@ == Seq::<char>::empty()
            },
            r is Ok && old(self).rest().contains(0u8) && !valid_utf8(cstr(old(self).rest())) ==> r->Ok_0@ == Seq::<char>::empty();
    fn read_compressed_int(&mut self) -> (r: io::Result<u32>)
        ensures
            // every value written by the encoder is read back, and exactly its bytes are consumed
            forall|x: u32, tail: Seq<u8>| old(self).rest() == #[trigger] (enc(x as nat) + tail) ==>
                (r is Err ==> Self::faulty()) && (r is Ok ==> r->Ok_0 == x && final(self).rest() == tail);
}

