// The format of an archive, as a reader: the entries, or None.
pub open spec fn text(b: Seq<u8>) -> Seq<char> { if valid_utf8(b) { decode_utf8(b) } else { Seq::empty() } }
/// a text up to its NUL (or to the end of the file), and what follows
pub open spec fn str_of(s: Seq<u8>) -> (Seq<char>, Seq<u8>) {
    if s.contains(0u8) { (text(cstr(s)), s.skip(cstr_len(s) + 1)) } else { (text(s), Seq::empty()) }
}
/// the room the text takes when written
pub open spec fn room(n: Seq<char>) -> int { encode_utf8(n).len() as int + 1 }
pub open spec fn mime_of(x: u32) -> Option<Mime> {
    if x == 0x5665_7273 { Some(Mime::Vers) } else if x == 0x4370_7273 { Some(Mime::Cprs) } else if x == 0x456e_6372 { Some(Mime::Enco) } else if x == 0 { Some(Mime::Blank) } else { None }
}
pub open spec fn num(s: Seq<u8>, i: int) -> u32 { de32(s.skip(4 * i).take(4)) }
pub open spec fn head_of(s: Seq<u8>) -> Option<(HV, Seq<u8>)> {
    let (name, t) = str_of(s);
    if t.len() < 20 { None } else {
        match mime_of(num(t, 0)) {
            None => None,
            Some(mime) => Some((HV { name, mime, original: num(t, 1), reserved: num(t, 2), timestamp: num(t, 3), size: num(t, 4) }, t.skip(20))),
        }
    }
}
/// properties up to an empty name: they, what follows, and the room they take
pub open spec fn props_of(s: Seq<u8>, e: Props, n: int) -> (Props, Seq<u8>, int)
    decreases s.len()
{
    let (k, s1) = str_of(s);
    if k.len() == 0 || s1.len() >= s.len() { (e, s1, n + room(k)) } else {
        let (v, s2) = str_of(s1);
        if s2.len() >= s.len() { (e, s2, n) } else { props_of(s2, pset(e, k, v), n + room(k) + room(v)) }
    }
}
pub struct Part { pub vers: Option<HV>, pub props: Props, pub heads: Seq<HV>, pub blob: int }
pub open spec fn start() -> Part { Part { vers: None, props: Seq::empty(), heads: Seq::empty(), blob: 0 } }
/// the headers up to the one that is empty, and what follows
pub open spec fn heads_of(s: Seq<u8>, p: Part) -> Option<(Part, Seq<u8>)>
    decreases s.len()
{
    match head_of(s) {
        None => None,
        Some((h, s1)) => {
            let blob = p.blob + 20 + room(h.name);
            if h.mime == Mime::Vers {
                let (e, s2, n) = props_of(s1, p.props, blob);
                if s2.len() >= s.len() { None } else { heads_of(s2, Part { vers: Some(h), props: e, blob: n, ..p }) }
            } else if h.name.len() == 0 { Some((Part { blob, ..p }, s1)) }
            else if s1.len() >= s.len() { None }
            else { heads_of(s1, Part { heads: p.heads.push(h), blob, ..p }) }
        },
    }
}
/// where the contents of header k begin
pub open spec fn sum_of(h: Seq<HV>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { sum_of(h, k - 1) + h[k - 1].size } }
/// the archive the file opens with, its checksum and what follows that
pub open spec fn open_of(s: Seq<u8>) -> Option<(Part, Seq<u8>, Seq<u8>)> {
    match heads_of(s, start()) {
        None => None,
        Some((p, t)) => {
            let n = sum_of(p.heads, p.heads.len() as int) + 1;
            if t.len() < n + 20 { None } else { Some((p, t.skip(n).take(20), t.skip(n + 20))) }
        },
    }
}

pub proof fn lemma_cstr_len(s: Seq<u8>)
    ensures 0 <= cstr_len(s) <= s.len(), s.contains(0u8) ==> cstr_len(s) < s.len(), !s.contains(0u8) ==> cstr_len(s) == s.len()
    decreases s.len()
{
    if s.len() == 0 { } else if s[0] == 0 { assert(s.contains(0u8)); } else {
        let r = s.skip(1);
        lemma_cstr_len(r);
        assert(s.contains(0u8) ==> r.contains(0u8)) by { if s.contains(0u8) { let i = choose|i: int| 0 <= i < s.len() && s[i] == 0u8; assert(r[i - 1] == 0u8); } }
        assert(r.contains(0u8) ==> s.contains(0u8)) by { if r.contains(0u8) { let i = choose|i: int| 0 <= i < r.len() && r[i] == 0u8; assert(s[i + 1] == 0u8); } }
    }
}
/// a text is not longer than its bytes; one that is not empty takes some
pub proof fn lemma_str_of(s: Seq<u8>)
    ensures
        str_of(s).1.len() <= s.len(),
        str_of(s).0.len() > 0 ==> str_of(s).1.len() < s.len(),
        encode_utf8(str_of(s).0).len() + str_of(s).1.len() <= s.len(),
        s.contains(0u8) ==> encode_utf8(str_of(s).0).len() + 1 + str_of(s).1.len() <= s.len(),
        !s.contains(0u8) ==> str_of(s).1.len() == 0,
{
    lemma_cstr_len(s);
    let b = if s.contains(0u8) { cstr(s) } else { s };
    lemma_empty_text();
    if valid_utf8(b) { decode_utf8_encode_utf8(b); }
    if b.len() == 0 { assert(b =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_empty_text() ensures encode_utf8(Seq::<char>::empty()).len() == 0, text(Seq::<u8>::empty()).len() == 0
{
    let e = Seq::<char>::empty();
    is_ascii_chars_encode_utf8(e);
    encode_utf8_decode_utf8(e);
    encode_utf8_valid_utf8(e);
    assert(encode_utf8(e) =~= Seq::<u8>::empty());
}
/// the bytes determine the text
pub proof fn lemma_text(n: Seq<char>)
    ensures text(encode_utf8(n)) == n, encode_utf8(n).len() == 0 <==> n.len() == 0
{
    encode_utf8_valid_utf8(n); encode_utf8_decode_utf8(n); lemma_empty_text();
    if n.len() == 0 { assert(n =~= Seq::<char>::empty()); }
    if encode_utf8(n).len() == 0 { assert(encode_utf8(n) =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_sum(h: Seq<HV>, g: Seq<HV>, k: int)
    requires 0 <= k <= h.len() <= g.len(), forall|i: int| 0 <= i < k ==> h[i] == g[i]
    ensures sum_of(h, k) == sum_of(g, k), sum_of(h, k) >= 0
    decreases k
{ if k > 0 { lemma_sum(h, g, k - 1); } }
pub proof fn lemma_sum_total(h: Seq<Header>, k: int)
    requires 0 <= k <= h.len()
    ensures sum_of(hvs(h), k) == start_of(h, k)
    decreases k
{ if k > 0 { lemma_sum_total(h, k - 1); } }
