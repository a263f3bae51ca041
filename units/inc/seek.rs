// std::io::Seek + Read over a byte device: fixed contents, a position (assumed contract).
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait Seek: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    /// the device may fail
    spec fn sfaulty() -> bool;
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures
            final(self).data() == old(self).data(),
            r is Ok ==> r->Ok_0 == final(self).pos() && final(self).pos() == (match p {
                SeekFrom::Start(n) => n as int,
                SeekFrom::End(n) => old(self).data().len() + n,
                SeekFrom::Current(n) => old(self).pos() + n,
            }),
            r is Err ==> Self::sfaulty() || (match p { SeekFrom::Start(n) => false, SeekFrom::End(n) => old(self).data().len() + n < 0, SeekFrom::Current(n) => old(self).pos() + n < 0 });
    fn rewind(&mut self) -> (r: io::Result<()>)
        ensures final(self).data() == old(self).data(), r is Ok ==> final(self).pos() == 0, r is Err ==> Self::sfaulty();
    /// Read::read_to_end
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            final(self).data() == old(self).data(),
            r is Ok ==> final(buf)@ == old(buf)@ + tail_of(old(self).data(), old(self).pos()),
            r is Err ==> Self::sfaulty();
    /// Read::read into the first n bytes of buf  (the code's `read(&mut buf[..n])`; n <= len is its bounds check)
    fn read_prefix(&mut self, buf: &mut [u8], n: usize) -> (r: io::Result<usize>)
        requires n <= old(buf)@.len()
        ensures
            final(self).data() == old(self).data(),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(k) => {
                    &&& k <= n && k <= tail_of(old(self).data(), old(self).pos()).len()
                    &&& final(buf)@.take(k as int) == tail_of(old(self).data(), old(self).pos()).take(k as int)
                    &&& final(self).pos() == old(self).pos() + k
                    &&& k == 0 ==> n == 0 || tail_of(old(self).data(), old(self).pos()).len() == 0
                    &&& forall|j: int| n <= j < old(buf)@.len() ==> final(buf)@[j] == old(buf)@[j]
                },
                Err(_) => Self::sfaulty() && final(self).pos() == old(self).pos(),
            };
}
pub open spec fn tail_of(d: Seq<u8>, p: int) -> Seq<u8> { if 0 <= p <= d.len() { d.skip(p) } else { Seq::empty() } }
