/// a C string in front of anything
pub proof fn lemma_cs_front(a: Seq<char>, y: Seq<u8>)
    requires !encode_utf8(a).contains(0u8)
    ensures
        (cs(a) + y).contains(0u8), cstr(cs(a) + y) == encode_utf8(a), valid_utf8(cstr(cs(a) + y)),
        (cs(a) + y).skip(cstr_len(cs(a) + y) + 1) == y,
        forall|o: Seq<char>| #[trigger] encode_utf8(o) == encode_utf8(a) ==> o == a,
{
    lemma_cstr_roundtrip(encode_utf8(a), y);
    assert(cs(a) + y == encode_utf8(a) + seq![0u8] + y);
    encode_utf8_valid_utf8(a);
    encode_utf8_decode_utf8(a);
    assert forall|o: Seq<char>| #[trigger] encode_utf8(o) == encode_utf8(a) implies o == a by { encode_utf8_decode_utf8(o); }
}
