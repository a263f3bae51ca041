pub trait AsRef<T: ?Sized> { spec fn ar(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.ar(); }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
  ensures valid_utf8(v@) <==> r is Ok, r is Ok ==> encode_utf8(r->Ok_0@) == v@;

/// Position of the first NUL.
pub open spec fn cstr_len(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0 { 0 } else { 1 + cstr_len(s.skip(1)) }
}
pub open spec fn cstr(s: Seq<u8>) -> Seq<u8> { s.take(cstr_len(s)) }

pub proof fn lemma_cstr_at(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), s[k] == 0, forall|j: int| 0 <= j < k ==> s[j] != 0
    ensures cstr_len(s) == k
    decreases k
{
    if k > 0 {
        assert(s.skip(1)[k - 1] == 0);
        assert forall|j: int| 0 <= j < k - 1 implies s.skip(1)[j] != 0 by { assert(s[j + 1] != 0); }
        lemma_cstr_at(s.skip(1), k - 1);
    }
}
/// Reading back what was written: a string without NUL, then a NUL, then anything.
pub proof fn lemma_cstr_roundtrip(b: Seq<u8>, tail: Seq<u8>)
    requires !b.contains(0u8)
    ensures
        (b + seq![0u8] + tail).contains(0u8),
        cstr(b + seq![0u8] + tail) == b,
        (b + seq![0u8] + tail).skip(cstr_len(b + seq![0u8] + tail) + 1) == tail,
{
    let s = b + seq![0u8] + tail;
    assert(s[b.len() as int] == 0);
    assert forall|j: int| 0 <= j < b.len() implies s[j] != 0 by { assert(s[j] == b[j]); assert(b.contains(b[j])); }
    lemma_cstr_at(s, b.len() as int);
    assert(s.take(b.len() as int) =~= b);
    assert(s.skip(b.len() as int + 1) =~= tail);
}
