/// SHA-1 as an uninterpreted function of the bytes fed to it (assumed contract of sha1::Sha1).
pub uninterp spec fn sha1(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub struct Sha1 { x: int }
impl Sha1 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Sha1) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self).fed() == old(self).fed() + d@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Vec<u8>) ensures r@ == sha1(self.fed()) && r@.len() == 20 { unimplemented!() }
}
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
/// std::io::Cursor<Vec<u8>> written to from its end (assumed contract)
#[verifier::external_body] pub struct Cursor { x: int }
impl Cursor {
    pub uninterp spec fn buf(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(v: Vec<u8>) -> (r: Cursor) requires v@.len() == 0 ensures r.buf() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.buf() { unimplemented!() }
}
impl Write for Cursor {
    open spec fn written(&self) -> Seq<u8> { self.buf() }
    open spec fn wfaulty() -> bool { false }
    #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> io::Result<()> { unimplemented!() }
}
/// indexmap::IndexMap<String, String>: entries in insertion order with distinct keys (assumed contract)
#[verifier::external_body] pub struct IndexMap { x: int }
impl IndexMap {
    pub uninterp spec fn entries(&self) -> Seq<(Seq<char>, Seq<char>)>;
    #[verifier::external_body] pub fn new() -> (r: IndexMap) ensures r.entries() == Seq::<(Seq<char>, Seq<char>)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&String>)
        ensures match r { Some(v) => pget(self.entries(), k@) == Some(v@), None => pget(self.entries(), k@) is None }
    { unimplemented!() }
    #[verifier::external_body] pub fn pairs(&self) -> (r: Vec<(&String, &String)>)
        ensures pairs_of(r@, self.entries())
    { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures
            final(self).entries() == pset(old(self).entries(), k@, v@),
            match r { Some(v) => pget(old(self).entries(), k@) == Some(v@), None => pget(old(self).entries(), k@) is None },
    { unimplemented!() }
    /// the last entry takes the place of the removed one
    #[verifier::external_body] pub fn swap_remove(&mut self, k: &str) -> (r: Option<String>)
        ensures
            without(final(self).entries(), old(self).entries(), k@),
            match r { Some(v) => pget(old(self).entries(), k@) == Some(v@), None => pget(old(self).entries(), k@) is None },
    { unimplemented!() }
}
pub type Props = Seq<(Seq<char>, Seq<char>)>;
pub open spec fn pairs_of(v: Seq<(&String, &String)>, e: Props) -> bool {
    v.len() == e.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].0@ == e[i].0 && v[i].1@ == e[i].1
}
pub open spec fn pget(e: Props, k: Seq<char>) -> Option<Seq<char>>
    decreases e.len()
{ if e.len() == 0 { None } else if e[0].0 == k { Some(e[0].1) } else { pget(e.skip(1), k) } }
/// `a` has the properties of `b`, except `k`
pub open spec fn without(a: Props, b: Props, k: Seq<char>) -> bool {
    forall|x: Seq<char>| #![trigger pget(a, x)] #![trigger pget(b, x)] pget(a, x) == if x == k { None } else { pget(b, x) }
}
pub open spec fn pset(e: Props, k: Seq<char>, v: Seq<char>) -> Props
    decreases e.len()
{ if e.len() == 0 { seq![(k, v)] } else if e[0].0 == k { seq![(k, v)] + e.skip(1) } else { seq![e[0]] + pset(e.skip(1), k, v) } }
pub fn str_is(a: &String, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a.as_str() == b }

pub open spec fn cs(s: Seq<char>) -> Seq<u8> { encode_utf8(s) + seq![0u8] }
pub open spec fn prefix_key() -> Seq<u8> { seq![112u8, 114, 101, 102, 105, 120, 0] }
/// properties other than the prefix, in order
pub open spec fn others(e: Props, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if e[n - 1].0 == "prefix"@ { others(e, n - 1) }
    else { others(e, n - 1) + cs(e[n - 1].0) + cs(e[n - 1].1) }
}
pub open spec fn propsec(e: Props) -> Seq<u8> {
    (match pget(e, "prefix"@) { Some(v) => prefix_key() + cs(v), None => Seq::<u8>::empty() }) + others(e, e.len() as int)
}
/// what an entry header says
pub struct HV { pub name: Seq<char>, pub mime: Mime, pub original: u32, pub reserved: u32, pub timestamp: u32, pub size: u32 }
impl HV {
    pub open spec fn bytes(self) -> Seq<u8> {
        encode_utf8(self.name) + seq![0u8] + le32(mime_num(self.mime)) + le32(self.original) + le32(self.reserved) + le32(self.timestamp) + le32(self.size)
    }
}
impl Header {
    pub open spec fn hv(self) -> HV { HV { name: self.filename@, mime: self.mime, original: self.original, reserved: self.reserved, timestamp: self.timestamp, size: self.size } }
}
pub open spec fn hvs(h: Seq<Header>) -> Seq<HV> { h.map_values(|x: Header| x.hv()) }
pub open spec fn vers_hv() -> HV { HV { name: Seq::empty(), mime: Mime::Vers, original: 0, reserved: 0, timestamp: 0, size: 0 } }
pub open spec fn blank_hv() -> HV { HV { name: Seq::empty(), mime: Mime::Blank, original: 0, reserved: 0, timestamp: 0, size: 0 } }
pub open spec fn heads(h: Seq<HV>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { heads(h, n - 1) + h[n - 1].bytes() } }

/// std::collections ordering of strings: a total order (assumed)
pub uninterp spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering;
pub axiom fn str_ord_total(a: Seq<char>, b: Seq<char>)
    ensures (str_ord(a, b) == Ordering::Equal) <==> a == b, str_ord(a, b) == Ordering::Less <==> str_ord(b, a) == Ordering::Greater;
pub axiom fn str_ord_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires str_ord(a, b) != Ordering::Greater, str_ord(b, c) != Ordering::Greater
    ensures str_ord(a, c) != Ordering::Greater;
pub trait StrCmp { spec fn cv(&self) -> Seq<char>; fn cmp_(&self, o: &Self) -> (r: Ordering) ensures r == str_ord(self.cv(), o.cv()); }
impl StrCmp for str { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn cmp_(&self, o: &str) -> Ordering { unimplemented!() } }
impl StrCmp for String { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn cmp_(&self, o: &String) -> Ordering { unimplemented!() } }
pub trait ThenX: Sized { spec fn ov(self) -> Ordering; fn then_(self, o: Ordering) -> (r: Ordering) ensures r == if self.ov() == Ordering::Equal { o } else { self.ov() }; }
impl ThenX for Ordering { open spec fn ov(self) -> Ordering { self } fn then_(self, o: Ordering) -> Ordering { match self { Ordering::Equal => o, _ => self } } }
/// the order of entries in an archive: case-insensitive by name, then by name
pub open spec fn vord(a: HV, b: HV) -> Ordering {
    let c = str_ord(lower(a.name), lower(b.name));
    if c == Ordering::Equal { str_ord(a.name, b.name) } else { c }
}
/// case-insensitive name order only
pub open spec fn cord(a: HV, b: HV) -> Ordering { str_ord(lower(a.name), lower(b.name)) }
pub open spec fn sorted(s: Seq<HV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> vord(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater }
pub open spec fn distinct_names(s: Seq<HV>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).name != (#[trigger] s[j]).name }
pub open spec fn same_elems(a: Seq<HV>, b: Seq<HV>) -> bool { a.len() == b.len() && forall|x: HV| #[trigger] a.contains(x) <==> b.contains(x) }
