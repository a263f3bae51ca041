#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include inc/stdio.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/ioext_assumed.rs
//@include inc/bytes.rs
//@include inc/pboheader.rs

pub trait WritePbo {
    spec fn pbo_bytes(&self) -> Seq<u8>;
    fn write_pbo<O: Write>(&self, output: &mut O) -> (r: Result<(), Error>)
        ensures r is Err ==> O::wfaulty(), r is Ok ==> final(output).written() == old(output).written() + self.pbo_bytes();
}
pub trait ReadPbo: Sized {
    spec fn is(&self, n: usize, before: Seq<u8>, after: Seq<u8>, faulty: bool) -> bool;
    spec fn refused(before: Seq<u8>, faulty: bool) -> bool;
    fn read_pbo<I: Read>(input: &mut I) -> (r: Result<(Self, usize), crate_error::Error>)
        ensures
            r is Ok ==> r->Ok_0.0.is(r->Ok_0.1, old(input).rest(), final(input).rest(), I::faulty()),
            r is Err ==> Self::refused(old(input).rest(), I::faulty());
}
impl WritePbo for Header {
    open spec fn pbo_bytes(&self) -> Seq<u8> { self.bytes() }
//@extract libs/pbo/src/model/header.rs | impl WritePbo for Header @ fn write_pbo
//@sub std::io::Write ==> Write
//@sub crate::error::Error ==> crate_error::Error
//@sub? &self\.filename ==> self.filename
//@end
}
/// `before` starts with the encoding of `h`
pub open spec fn starts_with_header(before: Seq<u8>, h: Header) -> bool {
    before.len() >= h.bytes().len() && before.take(h.bytes().len() as int) == h.bytes() && !encode_utf8(h.filename@).contains(0u8)
}
impl ReadPbo for Header {
    /// whatever header the input starts with is the one that is returned, and exactly its bytes are consumed
    open spec fn is(&self, n: usize, before: Seq<u8>, after: Seq<u8>, faulty: bool) -> bool {
        forall|h: Header| #[trigger] starts_with_header(before, h) ==>
            self.same(h) && n == h.bytes().len() && after == before.skip(h.bytes().len() as int)
    }
    open spec fn refused(before: Seq<u8>, faulty: bool) -> bool {
        forall|h: Header| #[trigger] starts_with_header(before, h) ==> faulty
    }
//@extract libs/pbo/src/model/header.rs | impl ReadPbo for Header @ fn read_pbo
//@sub std::io::Read ==> Read
//@sub crate::error::Error ==> crate_error::Error
//@entry
    let ghost b0 = old(input).rest();
    proof {
        assert forall|h: Header| #[trigger] starts_with_header(b0, h) implies header_facts(b0, h) by { lemma_starts(b0, h); }
        assert(forall|m: Mime| mime_num(m) == 0x5665_7273 || mime_num(m) == 0x4370_7273 || mime_num(m) == 0x456e_6372 || mime_num(m) == 0);
    }
//@end
}
pub open spec fn at32(b: Seq<u8>, i: int) -> u32 { de32(b.skip(i).take(4)) }
pub open spec fn header_facts(b: Seq<u8>, h: Header) -> bool {
    let l = encode_utf8(h.filename@).len() as int;
    &&& b.contains(0u8) && cstr_len(b) == l && cstr(b) == encode_utf8(h.filename@) && valid_utf8(cstr(b))
    &&& b.len() >= l + 21 && h.bytes().len() == l + 21
    &&& at32(b, l + 1) == mime_num(h.mime)
    &&& at32(b, l + 5) == h.original && at32(b, l + 9) == h.reserved && at32(b, l + 13) == h.timestamp && at32(b, l + 17) == h.size
    &&& b.skip(l + 1).skip(4) == b.skip(l + 5) && b.skip(l + 5).skip(4) == b.skip(l + 9) && b.skip(l + 9).skip(4) == b.skip(l + 13)
    &&& b.skip(l + 13).skip(4) == b.skip(l + 17) && b.skip(l + 17).skip(4) == b.skip(l + 21)
    &&& forall|o: Header| encode_utf8(o.filename@) == encode_utf8(h.filename@) ==> o.filename@ == h.filename@
}
pub proof fn lemma_starts(b: Seq<u8>, h: Header)
    requires starts_with_header(b, h)
    ensures header_facts(b, h)
{
    let n = encode_utf8(h.filename@);
    let l = n.len() as int;
    lemma_le32(mime_num(h.mime)); lemma_le32(h.original); lemma_le32(h.reserved); lemma_le32(h.timestamp); lemma_le32(h.size);
    let t = b.take(h.bytes().len() as int);
    assert(t == h.bytes());
    assert forall|j: int| 0 <= j < l implies b[j] == n[j] && b[j] != 0 by { assert(b[j] == t[j]); assert(n.contains(n[j])); }
    assert(b[l] == t[l]);
    lemma_cstr_at(b, l);
    assert(b.take(l) =~= n);
    assert(b.contains(0u8));
    assert forall|j: int| 0 <= j < h.bytes().len() implies b[j] == h.bytes()[j] by { assert(b[j] == t[j]); }
    assert(b.skip(l + 1).take(4) =~= le32(mime_num(h.mime)));
    assert(b.skip(l + 5).take(4) =~= le32(h.original));
    assert(b.skip(l + 9).take(4) =~= le32(h.reserved));
    assert(b.skip(l + 13).take(4) =~= le32(h.timestamp));
    assert(b.skip(l + 17).take(4) =~= le32(h.size));
    assert(b.skip(l + 1).skip(4) =~= b.skip(l + 5));
    assert(b.skip(l + 5).skip(4) =~= b.skip(l + 9));
    assert(b.skip(l + 9).skip(4) =~= b.skip(l + 13));
    assert(b.skip(l + 13).skip(4) =~= b.skip(l + 17));
    assert(b.skip(l + 17).skip(4) =~= b.skip(l + 21));
    encode_decode_facts(h.filename@);
    assert forall|o: Header| encode_utf8(o.filename@) == n implies o.filename@ == h.filename@ by { encode_decode_facts(o.filename@); }
}
pub proof fn encode_decode_facts(s: Seq<char>)
    ensures valid_utf8(encode_utf8(s)), decode_utf8(encode_utf8(s)) == s
{
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}
/// the theorem: writing then reading
pub proof fn theorem_roundtrip(h: Header, tail: Seq<u8>)
    requires !encode_utf8(h.filename@).contains(0u8)
    ensures starts_with_header(h.bytes() + tail, h)
{ assert((h.bytes() + tail).take(h.bytes().len() as int) =~= h.bytes()); }
}
fn main(){}
