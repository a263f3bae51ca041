#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::cmp::Ordering;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/seek.rs
//@include inc/names.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/pboheader.rs
//@include inc/pbolayout.rs
//@include inc/pbohash.rs
//@include inc/pbofromenv.rs
//@include inc/pboreadable.rs assumed
//@include inc/pboopen.rs
//@include inc/pboarchive.rs
//@include inc/pboback.rs
//@include inc/pbocheckspec.rs
//@include inc/pbosum.rs

/// std::io::Read over a device that can seek: its contents stay, its position advances by what was read (assumed;
/// read_cstring is proved for the real function over byte sequences in unit io)
pub open spec fn moved<I: Seek>(old: I, new: I, n: int) -> bool { new.data() == old.data() && new.pos() == old.pos() + n }
pub trait Dev: Seek {
    fn read_cstring(&mut self) -> (r: io::Result<String>)
        ensures
            r is Err ==> Self::sfaulty(),
            r is Ok ==> ({
                let t = tail_of(old(self).data(), old(self).pos());
                moved(*old(self), *final(self), t.len() - str_of(t).1.len()) && r->Ok_0@ == str_of(t).0
            });
    fn read_u32<E>(&mut self) -> (r: io::Result<u32>)
        ensures
            r is Err ==> Self::sfaulty() || tail_of(old(self).data(), old(self).pos()).len() < 4,
            r is Ok ==> tail_of(old(self).data(), old(self).pos()).len() >= 4 && moved(*old(self), *final(self), 4)
                && r->Ok_0 == de32(tail_of(old(self).data(), old(self).pos()).take(4));
    fn read_u8(&mut self) -> (r: io::Result<u8>)
        ensures
            final(self).data() == old(self).data(),
            r is Err ==> Self::sfaulty() || tail_of(old(self).data(), old(self).pos()).len() < 1,
            r is Ok ==> tail_of(old(self).data(), old(self).pos()).len() >= 1;
    fn read_exact(&mut self, b: &mut [u8]) -> (r: io::Result<()>)
        ensures
            final(b)@.len() == old(b)@.len(),
            r is Err ==> Self::sfaulty() || tail_of(old(self).data(), old(self).pos()).len() < old(b)@.len(),
            r is Ok ==> tail_of(old(self).data(), old(self).pos()).len() >= old(b)@.len() && moved(*old(self), *final(self), old(b)@.len() as int)
                && final(b)@ == tail_of(old(self).data(), old(self).pos()).take(old(b)@.len() as int);
}
impl<T: Seek> Dev for T {
    #[verifier::external_body] fn read_cstring(&mut self) -> io::Result<String> { unimplemented!() }
    #[verifier::external_body] fn read_u32<E>(&mut self) -> io::Result<u32> { unimplemented!() }
    #[verifier::external_body] fn read_u8(&mut self) -> io::Result<u8> { unimplemented!() }
    #[verifier::external_body] fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { unimplemented!() }
}
/// the bytes still ahead
pub open spec fn ahead<I: Seek>(i: I) -> Seq<u8> { tail_of(i.data(), i.pos()) }
pub open spec fn inside<I: Seek>(i: I) -> bool { 0 <= i.pos() && i.data().len() <= i64::MAX }
pub proof fn lemma_moved<I: Seek>(a: I, b: I, n: int)
    requires moved(a, b, n), inside(a), 0 <= n <= ahead(a).len()
    ensures inside(b), ahead(b) == ahead(a).skip(n), ahead(b).len() == ahead(a).len() - n
{ assert(ahead(b) =~= ahead(a).skip(n)); }

pub trait ReadPbo: Sized {
    spec fn parsed<I: Seek>(r: Result<(Self, usize), crate_error::Error>, before: I, after: I) -> bool;
    fn read_pbo<I: Seek>(input: &mut I) -> (r: Result<(Self, usize), crate_error::Error>)
        requires inside(*old(input))
        ensures Self::parsed(r, *old(input), *final(input)), final(input).data() == old(input).data() || r is Err;
}
impl ReadPbo for Header {
    open spec fn parsed<I: Seek>(r: Result<(Self, usize), crate_error::Error>, before: I, after: I) -> bool {
        match (r, head_of(ahead(before))) {
            (Ok((h, n)), Some((v, t))) => h.hv() == v && n == 20 + room(v.name) && inside(after) && ahead(after) == t && after.data() == before.data(),
            (Ok(_), None) => false,
            (Err(_), Some(_)) => I::sfaulty(),
            (Err(_), None) => true,
        }
    }
//@extract libs/pbo/src/model/header.rs | impl ReadPbo for Header @ fn read_pbo
//@sub I: std::io::Read ==> I: Seek
//@sub crate::error::Error ==> crate_error::Error
//@entry
    let ghost i0 = *input;
    let ghost s = ahead(i0);
    proof { lemma_str_of(s); }
//@after let filename = input\.read_cstring\(\)\?;
    let ghost i1 = *input;
    proof { lemma_moved(i0, i1, s.len() - str_of(s).1.len()); lemma_str_tail(s); }
    let ghost t = ahead(i1);
    proof { lemma_tails(i1.data(), i1.pos()); lemma_mime(num(t, 0)); }
//@end
}
impl ReadPbo for Checksum {
    open spec fn parsed<I: Seek>(r: Result<(Self, usize), crate_error::Error>, before: I, after: I) -> bool {
        match r {
            Ok((c, _)) => ahead(before).len() >= 20 && c.0@ == ahead(before).take(20) && inside(after) && ahead(after) == ahead(before).skip(20) && after.data() == before.data(),
            Err(_) => I::sfaulty() || ahead(before).len() < 20,
        }
    }
//@extract libs/pbo/src/model/checksum.rs | impl ReadPbo for Checksum @ fn read_pbo
//@sub I: std::io::Read ==> I: Seek
//@sub crate::error::Error ==> crate_error::Error
//@entry
    let ghost i0 = *input;
//@before Ok\(
    proof { lemma_moved(i0, *input, 20); }
//@end
}
impl<I: Seek> ReadablePbo<I> {
    pub open spec fn part(self) -> Part {
        Part { vers: match self.vers_header { Some(h) => Some(h.hv()), None => None }, props: self.properties.entries(), heads: hvs(self.headers@), blob: self.blob_start as int }
    }
//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn from
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub? i64::from\( ==> i64_from(
//@sub header\.mime\(\) == &Mime::Vers ==> is_vers(header.mime())
//@sub let mut properties = IndexMap::new ==> let mut properties: IndexMap = IndexMap::new
//@sub let mut headers = Vec::new ==> let mut headers: Vec<Header> = Vec::new
//@sub let mut vers_header = None ==> let mut vers_header: Option<Header> = None
//@index 2
//@spec
    requires input.pos() == 0, input.data().len() <= i64::MAX
    ensures
        match (r, open_of(input.data())) {
            // exactly what the file says
            (Ok(p), Some((part, sum, more))) => p.part() == part && p.checksum.0@ == sum && p.input.data() == input.data() && p.inv() && (more.len() == 0 || I::sfaulty()),
            (Ok(_), None) => false,
            (Err(_), Some((part, sum, more))) => more.len() > 0 || I::sfaulty(),
            (Err(_), None) => true,
        }
//@entry
    let ghost d = input.data();
    let ghost want = heads_of(d, start());
    proof { assert(tail_of(d, 0) =~= d); }
//@loopinit 0
    proof { assert(hvs(headers@) =~= Seq::<HV>::empty()); }
//@loop 0 loop
    invariant_except_break
        want == heads_of(ahead(input), here(vers_header, properties, headers, blob_start)),
        over(input, blob_start, 3),
    invariant
        inside(input), input.data() == d,
    ensures
        want == Some((here(vers_header, properties, headers, blob_start), ahead(input))),
        over(input, blob_start, 0),
    decreases ahead(input).len()
//@loopstart 0
    let ghost i0 = input;
    let ghost s = ahead(i0);
    let ghost p0 = here(vers_header, properties, headers, blob_start);
    proof { lemma_str_of(s); }
//@after blob_start \+= size as u64;
    let ghost h = header.hv();
    let ghost s1 = ahead(input);
    let ghost n0 = blob_start;
    let ghost ps = props_of(s1, p0.props, n0 as int);
    proof {
        assert(head_of(s) == Some((h, s1)));
        assert(s.contains(0u8));
        lemma_head_size(s);
        assert(over(input, blob_start, 0));
        assert(n0 == p0.blob + 20 + room(h.name));
    }
//@loop 1 loop
    invariant_except_break
        props_of(ahead(input), properties.entries(), blob_start as int) == ps,
        over(input, blob_start, 2),
    invariant
        inside(input), input.data() == d, ahead(input).len() <= s1.len(),
    ensures
        (properties.entries(), ahead(input), blob_start as int) == ps,
        over(input, blob_start, 3),
    decreases ahead(input).len()
//@loopstart 1
    let ghost j0 = input;
    let ghost t0 = ahead(j0);
    proof { lemma_str_of(t0); lemma_str_tail(t0); lemma_str_of(str_of(t0).1); lemma_str_tail(str_of(t0).1); lemma_empty_text(); }
//@after let key = input\.read_cstring\(\)\?;
    let ghost j1 = input;
    proof { lemma_moved(j0, j1, t0.len() - str_of(t0).1.len()); if key@.len() == 0 { assert(key@ =~= Seq::<char>::empty()); } }
//@after let value = input\.read_cstring\(\)\?;
    proof { lemma_moved(j1, input, ahead(j1).len() - str_of(ahead(j1)).1.len()); }
//@loopend 0
    proof {
        if h.mime != Mime::Vers { assert(hvs(headers@) =~= p0.heads.push(h)); }
        assert(ahead(input).len() < s.len());
        assert(want == heads_of(ahead(input), here(vers_header, properties, headers, blob_start)));
    }
//@loopinit 2
    let ghost q = input.pos();
    let ghost t = ahead(input);
    let ghost p1 = here(vers_header, properties, headers, blob_start);
//@loop 2 for
    invariant
        vs2@ == headers@, ix2 <= vs2@.len(), inside(input), input.data() == d, input.pos() == q + start_of(headers@, ix2 as int),
    decreases vs2@.len() - ix2
//@loopstart 2
    proof { lemma_start_total(headers@, ix2 as int); }
//@before let checksum = 
    let ghost i3 = input;
    let ghost n = start_of(headers@, headers@.len() as int) + 1;
    proof {
        lemma_start_nonneg(headers@, headers@.len() as int);
        lemma_sum_total(headers@, headers@.len() as int);
        assert(input.pos() == q + n);
        if t.len() >= n { assert(ahead(input) =~= t.skip(n)); }
        assert(open_of(d) == if t.len() < n + 20 { None } else { Some((p1, t.skip(n).take(20), t.skip(n + 20))) });
        if t.len() >= n + 20 { assert(t.skip(n).skip(20) =~= t.skip(n + 20)); }
    }
//@end
    /// the name with back slashes, case kept
//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn header
//@sub self\s*\.headers\s*\.iter\(\)\s*\.find\(\|h\| ((?:.|\n)*)\)\s*\}\s*$ ==> find_header(&self.headers, |h: &Header| -> (r: bool) ensures r == (slash(h.filename@) == slash(name@)) { \1 }) }
//@sub \.replace\('/', "\\\\"\) ==> .replace_slash()
//@spec
    ensures match r {
        Some(h) => exists|i: int| 0 <= i < self.headers@.len() && *h == self.headers@[i] && slash(h.filename@) == slash(name@)
            && forall|j: int| 0 <= j < i ==> slash((#[trigger] self.headers@[j]).filename@) != slash(name@),
        None => forall|j: int| 0 <= j < self.headers@.len() ==> slash((#[trigger] self.headers@[j]).filename@) != slash(name@),
    }
//@end
}
/// <[T]>::iter().find(f): the first for which f holds
pub fn find_header<'a, F: Fn(&Header) -> bool>(v: &'a Vec<Header>, f: F) -> (r: Option<&'a Header>)
    requires forall|h: &Header| f.requires((h,))
    ensures match r {
        Some(h) => exists|i: int| 0 <= i < v@.len() && *h == v@[i] && f.ensures((&v@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
    }
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|h: &Header| f.requires((h,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        decreases v@.len() - i
    {
        if f(&v[i]) { return Some(&v[i]); }
        i = i + 1;
    }
    None
}
pub open spec fn here(vers: Option<Header>, e: IndexMap, h: Vec<Header>, blob: u64) -> Part {
    Part { vers: match vers { Some(h) => Some(h.hv()), None => None }, props: e.entries(), heads: hvs(h@), blob: blob as int }
}
pub fn is_vers(m: &Mime) -> (r: bool) ensures r == (*m == Mime::Vers) { match m { Mime::Vers => true, _ => false } }
/// the room counted so far is what was read, but for NULs missing at the end of the file
pub open spec fn over<I: Seek>(i: I, blob: u64, k: int) -> bool { blob + ahead(i).len() <= i.data().len() + if ahead(i).len() == 0 { k } else { 0 } }
pub proof fn lemma_head_size(s: Seq<u8>)
    requires head_of(s) is Some
    ensures room((head_of(s)->0).0.name) + 20 + (head_of(s)->0).1.len() <= s.len(), s.contains(0u8)
{ lemma_str_of(s); }
pub proof fn lemma_str_tail(s: Seq<u8>)
    ensures s.skip(s.len() - str_of(s).1.len()) == str_of(s).1
{
    lemma_cstr_len(s);
    if s.contains(0u8) { assert(s.skip(s.len() - str_of(s).1.len()) =~= str_of(s).1); } else { assert(s.skip(s.len() as int) =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_mime(x: u32)
    ensures match mime_of(x) { Some(m) => mime_num(m) == x, None => forall|m: Mime| x != #[trigger] mime_num(m) }
{ assert(forall|m: Mime| #[trigger] mime_num(m) == 0x5665_7273 || mime_num(m) == 0x4370_7273 || mime_num(m) == 0x456e_6372 || mime_num(m) == 0); }
pub proof fn lemma_tails(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures ({
        let t = tail_of(d, p);
        &&& t.skip(0) == t
        &&& tail_of(d, p + 4).len() == if t.len() >= 4 { t.len() - 4 } else { 0 }
        &&& t.len() >= 4 ==> tail_of(d, p + 4) == t.skip(4)
        &&& t.len() >= 8 ==> tail_of(d, p + 8) == t.skip(8)
        &&& t.len() >= 12 ==> tail_of(d, p + 12) == t.skip(12)
        &&& t.len() >= 16 ==> tail_of(d, p + 16) == t.skip(16)
        &&& t.len() >= 20 ==> tail_of(d, p + 20) == t.skip(20)
    })
{
    let t = tail_of(d, p);
    assert(t.skip(0) =~= t);
    if t.len() >= 4 { assert(tail_of(d, p + 4) =~= t.skip(4)); }
    if t.len() >= 8 { assert(tail_of(d, p + 8) =~= t.skip(8)); }
    if t.len() >= 12 { assert(tail_of(d, p + 12) =~= t.skip(12)); }
    if t.len() >= 16 { assert(tail_of(d, p + 16) =~= t.skip(16)); }
    if t.len() >= 20 { assert(tail_of(d, p + 20) =~= t.skip(20)); }
}
}
fn main(){}
