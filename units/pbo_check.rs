#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::cmp::Ordering;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/seek.rs
//@include inc/names.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/ioext_assumed.rs
//@include inc/pboheader.rs
//@include inc/pbolayout.rs
//@include inc/pbohash.rs
//@include inc/pbocommon.rs
//@include inc/pboreadable.rs
//@include inc/pbocheckspec.rs

impl BISignVersion {
    // proved for the real functions in unit sign_version
    #[verifier::external_body] pub fn should_hash_file(&self, name: &str) -> (r: bool) ensures r == covers_name(*self, name@) { unimplemented!() }
    #[verifier::external_body] pub fn nothing(&self) -> (r: &str) ensures r@ == nothing_text(*self) { unimplemented!() }
}
/// std::io::copy(&mut File, &mut Sha1): reads until 0, feeding what was read (assumed contract; see theorem_reads in pbo_read)
#[verifier::external_body]
pub fn io_copy<I: Seek>(f: &mut File<I>, h: &mut Sha1) -> (r: io::Result<u64>)
    requires old(f).inv()
    ensures
        *final(final(f).input) == *final(old(f).input), final(f).input.data() == old(f).input.data(),
        r is Ok ==> final(h).fed() == old(h).fed() + old(f).left(),
        r is Err ==> I::sfaulty(),
{ unimplemented!() }
impl<'a, I: Seek> File<'a, I> {
    /// byteorder's read_u8 over File::read (assumed contract)
    #[verifier::external_body] pub fn read_u8(&mut self) -> (r: io::Result<u8>)
        requires old(self).inv()
        ensures
            *final(final(self).input) == *final(old(self).input), final(self).input.data() == old(self).input.data(),
            r is Err ==> old(self).left().len() == 0 || I::sfaulty(),
            r is Ok ==> old(self).left().len() > 0,
    { unimplemented!() }
}
impl Clone for Checksum { fn clone(&self) -> (r: Checksum) ensures r == *self { Checksum(self.0) } }
#[verifier::external_body] pub fn clone_headers(v: &Vec<Header>) -> (r: Vec<Header>) ensures hvs(r@) == hvs(v@) { unimplemented!() }
/// <[T]>::sort_by with a case-insensitive comparison (assumed contract)
#[verifier::external_body]
pub fn csort_headers<F: Fn(&Header, &Header) -> Ordering>(v: &mut Vec<Header>, f: F)
    requires
        forall|a: &Header, b: &Header| f.requires((a, b)),
        forall|a: &Header, b: &Header, r: Ordering| f.ensures((a, b), r) ==> r == cord(a.hv(), b.hv()),
    ensures hvs(final(v)@) == csort(hvs(old(v)@))
{ unimplemented!() }
pub proof fn lemma_found(h: Seq<Header>, i: int)
    requires 0 <= i < h.len()
    ensures lookup(h, h[i].filename@) is Some
{ lemma_found_from(h, i, 0); }
pub proof fn lemma_found_from(h: Seq<Header>, i: int, k: int)
    requires 0 <= k <= i < h.len()
    ensures lookup_from(h, h[i].filename@, k) is Some
    decreases i - k
{ if k < i { lemma_found_from(h, i, k + 1); } }
pub proof fn lemma_sorted_found(a: Arc, i: int)
    requires 0 <= i < a.heads.len()
    ensures a.sorted().len() == a.heads.len(), lookup(a.heads, a.sorted()[i].name) is Some
{
    csort_ax(hvs(a.heads));
    assert(a.sorted().contains(a.sorted()[i]));
    let j = choose|j: int| 0 <= j < a.heads.len() && hvs(a.heads)[j] == a.sorted()[i];
    lemma_found(a.heads, j);
}
/// appending to the tail of a comparison
pub proof fn lemma_app(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }

/// <[T]>::iter (assumed contract)
pub struct HIter<'a> { pub v: &'a Vec<Header>, pub i: usize }
impl<'a> HIter<'a> {
    pub fn new(v: &'a Vec<Header>) -> (r: Self) ensures r.v == v, r.i == 0 { HIter { v, i: 0 } }
    pub fn next(&mut self) -> (r: Option<&'a Header>)
        requires old(self).i <= old(self).v@.len()
        ensures
            final(self).v == old(self).v,
            match r { Some(h) => old(self).i < old(self).v@.len() && *h == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
    { if self.i < self.v.len() { self.i = self.i + 1; Some(&self.v[self.i - 1]) } else { None } }
}
#[verifier::external_body] pub fn is_greater(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { o == Ordering::Greater }
#[verifier::external_body] pub fn sort_any<F: Fn(&Header, &Header) -> Ordering>(v: &mut Vec<Header>, f: F) { unimplemented!() }
/// no entry's name comes before its predecessor's
pub open spec fn in_order(h: Seq<HV>) -> bool { forall|i: int| 0 <= i < h.len() - 1 ==> cord(#[trigger] h[i], h[i + 1]) != Ordering::Greater }
//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn is_sorted @ fn compare
//@sub \.cmp\( ==> .cmp_(
//@sub std::cmp::Ordering ==> Ordering
//@spec
    ensures r == cord(a.hv(), b.hv())
//@end

impl<I: Seek> ReadablePbo<I> {
    pub open spec fn arc(self) -> Arc { Arc { heads: self.headers@, data: self.input.data(), blob: self.blob_start as int } }
    /// nothing but the position of the device changed
    pub open spec fn same_as(self, o: Self) -> bool {
        self.headers == o.headers && self.blob_start == o.blob_start && self.properties == o.properties && self.vers_header == o.vers_header
            && self.checksum == o.checksum && self.input.data() == o.input.data()
    }
//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn files
//@sub self\.headers\.clone\(\) ==> clone_headers(&self.headers)
//@spec
    ensures hvs(r@) == hvs(self.headers@)
//@end

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn files_sorted
//@sub sorted\.sort_by\(\|a, b\| ==> csort_headers(&mut sorted, |a: &Header, b: &Header| -> (r: Ordering) ensures r == cord(a.hv(), b.hv())
//@sub \.cmp\( ==> .cmp_(
//@spec
    ensures hvs(r@) == self.arc().sorted()
//@end

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn hash_filenames
//@index 0
//@sub hasher\.update\((header\.filename\(\)[^;]*)\); ==> hasher.update(\1.as_bytes());
//@sub hasher\.finalize\(\)\.to_vec\(\)\.into\(\) ==> Checksum::from_vec(hasher.finalize().to_vec())
//@sub \.replace\('/', "\\\\"\) ==> .replace_slash()
//@spec
    requires old(self).inv()
    ensures
        r is Ok ==> final(self).same_as(*old(self)),
        r is Ok && !I::sfaulty() ==> r->Ok_0.0@ == old(self).arc().names_hash(),
        r is Err ==> I::sfaulty() || old(self).headers@.len() == 0,
        old(self).headers@.len() == 0 ==> r is Err,
//@entry
    let ghost a = old(self).arc();
    proof { csort_ax(hvs(a.heads)); }
//@loop 0 for
    invariant
        old(self).inv(), self.same_as(*old(self)), a == old(self).arc(), hvs(vs0@) == a.sorted(), vs0@.len() == a.heads.len(), ix0 <= vs0@.len(),
        !I::sfaulty() ==> hasher.fed() =~= a.names(ix0 as int),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { assert(a.sorted()[ix0 - 1] == vs0@[ix0 - 1].hv()); lemma_sorted_found(a, ix0 - 1); }
//@end

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn hash_files
//@index 0
//@sub std::io::copy\( ==> io_copy(
//@sub version\.nothing\(\) ==> version.nothing().as_bytes()
//@sub hasher\.finalize\(\)\.to_vec\(\)\.into\(\) ==> Checksum::from_vec(hasher.finalize().to_vec())
//@spec
    requires old(self).inv()
    ensures
        r is Ok ==> final(self).same_as(*old(self)),
        r is Ok ==> r->Ok_0.0@ == old(self).arc().files_hash(version),
        r is Err ==> I::sfaulty(),
//@entry
    let ghost a = old(self).arc();
    proof { csort_ax(hvs(a.heads)); }
//@loop 0 for
    invariant
        old(self).inv(), self.same_as(*old(self)), a == old(self).arc(), hvs(vs0@) == a.sorted(), vs0@.len() == a.heads.len(), ix0 <= vs0@.len(),
        hasher.fed() =~= a.covered(version, ix0 as int), nothing == !a.covers_any(version, ix0 as int),
        nothing ==> hasher.fed().len() == 0,
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { assert(a.sorted()[ix0 - 1] == vs0@[ix0 - 1].hv()); lemma_sorted_found(a, ix0 - 1); }
//@before Ok\(Checksum
    proof { if nothing { assert(hasher.fed() =~= encode_utf8(nothing_text(version))); } }
//@end

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn gen_checksum
//@sub Cursor<Vec<u8>> ==> Cursor
//@sub in &self\.properties ==> in seq(self.properties.pairs())
//@sub key == "prefix" ==> str_is(key, "prefix")
//@sub std::io::copy\( ==> io_copy(
//@sub (self\s*\.file\(header\.filename\(\)\)\?)\s*\.expect\(("[^"]*")\) ==> expect_some(\1, \2)
//@sub hasher\.finalize\(\)\.to_vec\(\)\.into\(\) ==> Checksum::from_vec(hasher.finalize().to_vec())
//@index 0
//@index 1
//@index 2
//@spec
    requires old(self).inv()
    ensures
        r is Ok ==> final(self).same_as(*old(self)),
        r is Ok ==> r->Ok_0.0@ == sha1(old(self).arc().summed(old(self).vers_header, old(self).properties.entries())),
        r is Err ==> I::sfaulty(),
//@entry
    let ghost a = old(self).arc();
    let ghost e = old(self).properties.entries();
    proof { csort_ax(hvs(a.heads)); reveal_strlit("prefix"); }
    broadcast use {bytes_of_string_ax, bytes_of_array_ax};
//@loopinit 0
    let ghost b0 = headers.buf();
//@loop 0 for
    invariant
        *self == *old(self), e == self.properties.entries(),
        pairs_of(vs0@, e), ix0 <= e.len(),
        headers.buf() =~= b0 + others(e, ix0 as int),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { assert(vs0@[ix0 - 1].0@ == e[ix0 - 1].0 && vs0@[ix0 - 1].1@ == e[ix0 - 1].1); }
//@loopinit 1
    let ghost h0 = headers.buf();
//@loop 1 for
    invariant
        *self == *old(self), a == old(self).arc(), hvs(vs1@) == a.sorted(), vs1@.len() == a.heads.len(), ix1 <= vs1@.len(),
        headers.buf() =~= h0 + heads(a.sorted(), ix1 as int),
    decreases vs1@.len() - ix1
//@loopstart 1
    proof { assert(a.sorted()[ix1 - 1] == vs1@[ix1 - 1].hv()); }
//@after let mut hasher = Sha1::new\(\);
    let ghost hb = headers.buf();
//@loop 2 for
    invariant
        old(self).inv(), self.same_as(*old(self)), a == old(self).arc(), hvs(vs2@) == a.sorted(), vs2@.len() == a.heads.len(), ix2 <= vs2@.len(),
        hasher.fed() =~= hb + a.contents(ix2 as int),
    decreases vs2@.len() - ix2
//@loopstart 2
    proof { assert(a.sorted()[ix2 - 1] == vs2@[ix2 - 1].hv()); lemma_sorted_found(a, ix2 - 1); }
//@before Ok\(Checksum
    proof { assert(hasher.fed() =~= a.summed(old(self).vers_header, e)); }
//@end

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn is_sorted
//@hoist compare
//@sub files\.iter\(\) ==> HIter::new(&files)
//@sub (compare\(last, curr\)) == std::cmp::Ordering::Greater ==> is_greater(\1)
//@sub files\.sort_by\(compare\) ==> sort_any(&mut files, compare)
//@desugar 0
//@spec
    ensures r is Ok <==> in_order(hvs(self.headers@))
//@entry
    let ghost h = hvs(self.headers@);
//@loopinit 0
    let ghost v = it0.v;
    proof { assert(hvs(v@) == h); assert(h[0] == v@[0].hv()); }
//@loop 0 for
    invariant
        it0.v == v, hvs(v@) == h, h == hvs(self.headers@), 1 <= it0.i <= v@.len(), *last == v@[it0.i - 1],
        forall|i: int| 0 <= i < it0.i - 1 ==> cord(#[trigger] h[i], h[i + 1]) != Ordering::Greater,
    ensures it0.i == v@.len(),
        forall|i: int| 0 <= i < it0.i - 1 ==> cord(#[trigger] h[i], h[i + 1]) != Ordering::Greater,
    decreases v@.len() - it0.i
//@loopstart 0
    proof { assert(h[it0.i - 2] == v@[it0.i - 2].hv()); assert(h[it0.i - 1] == v@[it0.i - 1].hv()); }
//@end
}
}
fn main(){}
