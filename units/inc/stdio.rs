// Model of the parts of std::io the extracted code uses (trusted: assumed contracts of a dependency).
pub struct IoError;
pub enum IoErrorKind { InvalidData, InvalidInput, UnexpectedEof, Other }
impl IoError { pub fn new(k: IoErrorKind, m: &str) -> IoError { IoError } }
pub mod io {
    pub type Result<T> = core::result::Result<T, super::IoError>;
    pub type Error = super::IoError;
    pub type ErrorKind = super::IoErrorKind;
}

/// std::io::Read, as a ghost sequence of bytes still to be delivered.  `faulty()` is true for a
/// reader whose underlying device may fail; a reader that is not faulty never returns an error
/// other than end-of-file.
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn faulty() -> bool;
    fn read_byte(&mut self) -> (r: Option<io::Result<u8>>)
        ensures
            match r {
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Some(Ok(b)) => old(self).rest().len() > 0 && b == old(self).rest()[0]
                    && final(self).rest() == old(self).rest().skip(1),
                // std: an error delivers no bytes
                Some(Err(_)) => Self::faulty() && final(self).rest() == old(self).rest(),
            };
    fn bytes<'a>(&'a mut self) -> (r: Bytes<'a, Self>)
        ensures *r.inner == *old(self), *final(r.inner) == *final(self)
    { Bytes { inner: self } }
}
pub struct Bytes<'a, R: Read> { pub inner: &'a mut R }
impl<'a, R: Read> Bytes<'a, R> {
    pub fn next(&mut self) -> (r: Option<io::Result<u8>>)
        ensures
            *final(final(self).inner) == *final(old(self).inner),
            match r {
                None => old(self).inner.rest().len() == 0 && final(self).inner.rest() == old(self).inner.rest(),
                Some(Ok(b)) => old(self).inner.rest().len() > 0 && b == old(self).inner.rest()[0]
                    && final(self).inner.rest() == old(self).inner.rest().skip(1),
                Some(Err(_)) => R::faulty() && final(self).inner.rest() == old(self).inner.rest(),
            }
    { self.inner.read_byte() }
    pub fn enumerate(self) -> (r: EnumBytes<'a, R>)
        ensures *r.inner.inner == *old(self.inner),
            *final(r.inner.inner) == *final(self.inner), r.n == 0
    { EnumBytes { inner: self, n: 0 } }
}
pub struct EnumBytes<'a, R: Read> { pub inner: Bytes<'a, R>, pub n: usize }
impl<'a, R: Read> EnumBytes<'a, R> {
    pub fn next(&mut self) -> (r: Option<(usize, io::Result<u8>)>)
        requires old(self).n < usize::MAX
        ensures
            *final(final(self).inner.inner) == *final(old(self).inner.inner),
            match r {
                None => old(self).inner.inner.rest().len() == 0
                    && final(self).inner.inner.rest() == old(self).inner.inner.rest() && final(self).n == old(self).n,
                Some((i, Ok(b))) => i == old(self).n && final(self).n == i + 1
                    && old(self).inner.inner.rest().len() > 0 && b == old(self).inner.inner.rest()[0]
                    && final(self).inner.inner.rest() == old(self).inner.inner.rest().skip(1),
                Some((i, Err(_))) => i == old(self).n && R::faulty(),
            }
    {
        match self.inner.next() {
            None => None,
            Some(b) => { let i = self.n; self.n = self.n + 1; Some((i, b)) }
        }
    }
}

/// std::io::Write, as the ghost sequence of bytes accepted so far.
pub trait Write: Sized {
    spec fn written(&self) -> Seq<u8>;
    spec fn wfaulty() -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures
            r is Err ==> Self::wfaulty(),
            r is Ok ==> final(self).written() == old(self).written() + buf@;
}
