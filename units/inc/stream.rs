/// peekmore::PeekMoreIterator over a token list: what is left and the peek cursor (assumed contract)
#[verifier::external_body] pub struct Stream { x: int }
impl Stream {
    pub uninterp spec fn rest(&self) -> Toks;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<&Arc<Token>>)
        ensures *final(self) == *old(self), r is Some <==> old(self).at() < old(self).rest().len(), r is Some ==> *r->0 == old(self).rest()[old(self).at() as int]
    { unimplemented!() }
    #[verifier::external_body] pub fn peek_forward(&mut self, n: usize) -> (r: Option<&Arc<Token>>)
        ensures final(self).rest() == old(self).rest(), final(self).at() == old(self).at() + n,
            r is Some <==> final(self).at() < old(self).rest().len(), r is Some ==> *r->0 == old(self).rest()[final(self).at() as int]
    { unimplemented!() }
    #[verifier::external_body] pub fn peek_backward(&mut self, n: usize) -> (r: Result<Option<&Arc<Token>>, ()>)
        ensures final(self).rest() == old(self).rest(), old(self).at() >= n ==> final(self).at() == old(self).at() - n, old(self).at() < n ==> *final(self) == *old(self)
    { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Arc<Token>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
            final(self).at() == if old(self).at() > 0 { (old(self).at() - 1) as nat } else { 0 },
    { unimplemented!() }
}

