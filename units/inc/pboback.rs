// ---------------------------------------------------------------- what was written is what is read
pub open spec fn no_nul(s: Seq<char>) -> bool { !encode_utf8(s).contains(0u8) }
/// the properties in the order they are written: the prefix first
pub open spec fn rest_of(e: Props, n: int) -> Props
    decreases n
{ if n <= 0 { Seq::empty() } else if e[n - 1].0 == "prefix"@ { rest_of(e, n - 1) } else { rest_of(e, n - 1).push(e[n - 1]) } }
pub open spec fn canon(e: Props) -> Props {
    (match pget(e, "prefix"@) { Some(v) => seq![("prefix"@, v)], None => Seq::<(Seq<char>, Seq<char>)>::empty() }) + rest_of(e, e.len() as int)
}
pub open spec fn list_bytes(l: Props) -> Seq<u8>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { cs(l[0].0) + cs(l[0].1) + list_bytes(l.skip(1)) } }
pub open spec fn heads_f(s: Seq<HV>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s[0].bytes() + heads_f(s.skip(1)) } }
/// properties that can be written: names that are not empty and occur once, no NUL
pub open spec fn props_ok(e: Props) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0.len() > 0 && no_nul(e[i].0) && no_nul(e[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
}
pub open spec fn heads_ok(s: Seq<HV>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name.len() > 0 && no_nul(s[i].name) && s[i].mime != Mime::Vers }

pub proof fn lemma_str_back(n: Seq<char>, t: Seq<u8>)
    requires no_nul(n)
    ensures str_of(cs(n) + t) == (n, t), cs(n).len() == room(n)
{
    lemma_cstr_roundtrip(encode_utf8(n), t);
    assert(cs(n) + t =~= encode_utf8(n) + seq![0u8] + t);
    lemma_text(n);
    encode_utf8_valid_utf8(n);
}
pub proof fn lemma_head_back(h: HV, t: Seq<u8>)
    requires no_nul(h.name)
    ensures head_of(h.bytes() + t) == Some((h, t)), h.bytes().len() == 20 + room(h.name)
{
    lemma_le32(mime_num(h.mime)); lemma_le32(h.original); lemma_le32(h.reserved); lemma_le32(h.timestamp); lemma_le32(h.size);
    let nums = le32(mime_num(h.mime)) + le32(h.original) + le32(h.reserved) + le32(h.timestamp) + le32(h.size);
    assert(h.bytes() + t =~= cs(h.name) + (nums + t));
    lemma_str_back(h.name, nums + t);
    let u = nums + t;
    assert(u.skip(0).take(4) =~= le32(mime_num(h.mime)));
    assert(u.skip(4).take(4) =~= le32(h.original));
    assert(u.skip(8).take(4) =~= le32(h.reserved));
    assert(u.skip(12).take(4) =~= le32(h.timestamp));
    assert(u.skip(16).take(4) =~= le32(h.size));
    assert(u.skip(20) =~= t);
    assert(mime_of(mime_num(h.mime)) == Some(h.mime));
}
pub proof fn lemma_heads_back(s: Seq<HV>, t: Seq<u8>, p: Part)
    requires heads_ok(s)
    ensures heads_of(heads_f(s) + blank_hv().bytes() + t, p) == Some((Part { heads: p.heads + s, blob: p.blob + heads_f(s).len() + blank_hv().bytes().len(), ..p }, t))
    decreases s.len()
{
    lemma_empty_text();
    if s.len() == 0 {
        let e = Seq::<char>::empty();
        assert(no_nul(e)) by { assert(encode_utf8(e) =~= Seq::<u8>::empty()); }
        lemma_head_back(blank_hv(), t);
        assert(heads_f(s) + blank_hv().bytes() + t =~= blank_hv().bytes() + t);
        assert(p.heads + s =~= p.heads);
    } else {
        let r = heads_f(s.skip(1)) + blank_hv().bytes() + t;
        assert(heads_f(s) + blank_hv().bytes() + t =~= s[0].bytes() + r);
        assert(no_nul(s[0].name));
        lemma_head_back(s[0], r);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]).name.len() > 0 && no_nul(s.skip(1)[i].name) && s.skip(1)[i].mime != Mime::Vers by { assert(s.skip(1)[i] == s[i + 1]); }
        let q = Part { heads: p.heads.push(s[0]), blob: p.blob + 20 + room(s[0].name), ..p };
        lemma_heads_back(s.skip(1), t, q);
        assert(p.heads.push(s[0]) + s.skip(1) =~= p.heads + s);
    }
}
pub proof fn lemma_pset_new(e: Props, k: Seq<char>, v: Seq<char>)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k
    ensures pset(e, k, v) == e.push((k, v))
    decreases e.len()
{
    if e.len() == 0 { assert(pset(e, k, v) =~= e.push((k, v))); } else {
        assert(e[0].0 != k);
        assert forall|i: int| 0 <= i < e.skip(1).len() implies (#[trigger] e.skip(1)[i]).0 != k by { assert(e.skip(1)[i] == e[i + 1]); }
        lemma_pset_new(e.skip(1), k, v);
        assert(pset(e, k, v) =~= e.push((k, v)));
    }
}
pub proof fn lemma_props_back(l: Props, acc: Props, t: Seq<u8>, n: int)
    requires props_ok(acc + l)
    ensures props_of(list_bytes(l) + seq![0u8] + t, acc, n) == (acc + l, t, n + list_bytes(l).len() + 1)
    decreases l.len()
{
    lemma_empty_text();
    let all = list_bytes(l) + seq![0u8] + t;
    if l.len() == 0 {
        let e = Seq::<char>::empty();
        assert(encode_utf8(e) =~= Seq::<u8>::empty());
        assert(all =~= cs(e) + t);
        lemma_str_back(e, t);
        assert(acc + l =~= acc);
    } else {
        let x = l[0];
        assert((acc + l)[acc.len() as int] == x);
        let r = list_bytes(l.skip(1)) + seq![0u8] + t;
        assert(all =~= cs(x.0) + (cs(x.1) + r));
        lemma_str_back(x.0, cs(x.1) + r);
        lemma_str_back(x.1, r);
        assert forall|i: int| 0 <= i < acc.len() implies (#[trigger] acc[i]).0 != x.0 by { assert((acc + l)[i] == acc[i]); }
        lemma_pset_new(acc, x.0, x.1);
        assert(acc.push(x) + l.skip(1) =~= acc + l);
        lemma_props_back(l.skip(1), acc.push(x), t, n + room(x.0) + room(x.1));
    }
}
pub proof fn lemma_list_push(l: Props, x: (Seq<char>, Seq<char>))
    ensures list_bytes(l.push(x)) == list_bytes(l) + cs(x.0) + cs(x.1)
    decreases l.len()
{
    if l.len() == 0 {
        assert(l.push(x).skip(1) =~= Seq::<(Seq<char>, Seq<char>)>::empty()); assert(list_bytes(l.push(x).skip(1)).len() == 0);
        assert(list_bytes(l.push(x)) =~= list_bytes(l) + cs(x.0) + cs(x.1));
    } else {
        lemma_list_push(l.skip(1), x);
        assert(l.push(x).skip(1) =~= l.skip(1).push(x));
        assert(list_bytes(l.push(x)) =~= list_bytes(l) + cs(x.0) + cs(x.1));
    }
}
pub proof fn lemma_heads_push(l: Seq<HV>, x: HV)
    ensures heads_f(l.push(x)) == heads_f(l) + x.bytes()
    decreases l.len()
{
    if l.len() == 0 {
        assert(l.push(x).skip(1) =~= Seq::<HV>::empty()); assert(heads_f(l.push(x).skip(1)).len() == 0);
        assert(heads_f(l.push(x)) =~= heads_f(l) + x.bytes());
    } else {
        lemma_heads_push(l.skip(1), x);
        assert(l.push(x).skip(1) =~= l.skip(1).push(x));
        assert(heads_f(l.push(x)) =~= heads_f(l) + x.bytes());
    }
}
pub proof fn lemma_heads_f(s: Seq<HV>, n: int)
    requires 0 <= n <= s.len()
    ensures heads(s, n) == heads_f(s.take(n))
    decreases n
{
    if n > 0 { lemma_heads_f(s, n - 1); lemma_heads_push(s.take(n - 1), s[n - 1]); assert(s.take(n) =~= s.take(n - 1).push(s[n - 1])); }
    else { assert(s.take(0) =~= Seq::<HV>::empty()); }
}
pub proof fn lemma_others(e: Props, n: int)
    requires 0 <= n <= e.len()
    ensures others(e, n) == list_bytes(rest_of(e, n))
    decreases n
{ if n > 0 { lemma_others(e, n - 1); if e[n - 1].0 != "prefix"@ { lemma_list_push(rest_of(e, n - 1), e[n - 1]); } } }
pub proof fn lemma_prefix() ensures cs("prefix"@) == prefix_key(), no_nul("prefix"@), "prefix"@.len() == 6
{
    reveal_strlit("prefix");
    let a = "prefix"@;
    is_ascii_chars_encode_utf8(a);
    assert(cs(a) =~= prefix_key());
    let b = encode_utf8(a);
    assert forall|i: int| 0 <= i < b.len() implies b[i] != 0u8 by { assert(b[i] == a[i] as u8); }
}
pub proof fn lemma_pget(e: Props, k: Seq<char>)
    ensures match pget(e, k) { Some(v) => exists|i: int| 0 <= i < e.len() && #[trigger] e[i] == (k, v), None => forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k }
    decreases e.len()
{
    if e.len() > 0 && e[0].0 != k {
        lemma_pget(e.skip(1), k);
        match pget(e, k) {
            Some(v) => { let i = choose|i: int| 0 <= i < e.skip(1).len() && #[trigger] e.skip(1)[i] == (k, v); assert(e[i + 1] == (k, v)); },
            None => { assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 != k by { if i > 0 { assert(e.skip(1)[i - 1] == e[i]); } } },
        }
    } else if e.len() > 0 { assert(e[0] == (k, e[0].1)); }
}
/// the rest: entries of e in their order, without the prefix
pub proof fn lemma_rest(e: Props, n: int)
    requires 0 <= n <= e.len(), props_ok(e)
    ensures
        props_ok(rest_of(e, n)),
        forall|i: int| 0 <= i < rest_of(e, n).len() ==> (#[trigger] rest_of(e, n)[i]).0 != "prefix"@ && exists|j: int| 0 <= j < n && e[j] == rest_of(e, n)[i],
    decreases n
{
    if n > 0 {
        lemma_rest(e, n - 1);
        let r = rest_of(e, n - 1);
        if e[n - 1].0 != "prefix"@ {
            let q = r.push(e[n - 1]);
            assert(rest_of(e, n) == q);
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 != "prefix"@ && (exists|j: int| 0 <= j < n && e[j] == q[i]) by {
                if i < r.len() { assert(q[i] == r[i]); let j = choose|j: int| 0 <= j < n - 1 && e[j] == r[i]; assert(e[j] == q[i]); } else { assert(e[n - 1] == q[i]); }
            }
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0.len() > 0 && no_nul(q[i].0) && no_nul(q[i].1) by { let j = choose|j: int| 0 <= j < n && e[j] == q[i]; assert(e[j].0.len() > 0); }
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by {
                if j < r.len() { assert(q[i] == r[i] && q[j] == r[j]); } else {
                    assert(q[i] == r[i]); let k = choose|k: int| 0 <= k < n - 1 && e[k] == r[i];
                    assert(e[k].0 != e[n - 1].0);
                }
            }
        }
    }
}
pub proof fn lemma_canon(e: Props)
    requires props_ok(e)
    ensures props_ok(canon(e)), propsec(e) == list_bytes(canon(e)),
        // the same properties
        forall|x: (Seq<char>, Seq<char>)| canon(e).contains(x) ==> e.contains(x),
        forall|x: (Seq<char>, Seq<char>)| e.contains(x) ==> canon(e).contains(x),
{
    let n = e.len() as int;
    lemma_rest(e, n); lemma_others(e, n); lemma_prefix(); lemma_pget(e, "prefix"@);
    let r = rest_of(e, n);
    let c = canon(e);
    match pget(e, "prefix"@) {
        Some(v) => {
            let x = ("prefix"@, v);
            let i0 = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == x;
            assert(no_nul(e[i0].1));
            assert(c =~= seq![x] + r);
            assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).0.len() > 0 && no_nul(c[i].0) && no_nul(c[i].1) by { if i > 0 { assert(c[i] == r[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 != (#[trigger] c[j]).0 by { assert(c[j] == r[j - 1]); if i > 0 { assert(c[i] == r[i - 1]); } }
            assert(c.skip(1) =~= r);
            assert(propsec(e) =~= cs(x.0) + cs(x.1) + list_bytes(r));
        },
        None => { assert(c =~= r); assert(propsec(e) =~= list_bytes(c)); },
    }
    lemma_canon_same(e);
}
pub proof fn lemma_rest_has(e: Props, n: int, k: int)
    requires 0 <= k < n <= e.len(), e[k].0 != "prefix"@
    ensures rest_of(e, n).contains(e[k])
    decreases n
{
    if k == n - 1 { let q = rest_of(e, n); assert(q[q.len() - 1] == e[k]); } else {
        lemma_rest_has(e, n - 1, k);
        let r = rest_of(e, n - 1); let i = choose|i: int| 0 <= i < r.len() && r[i] == e[k];
        assert(rest_of(e, n)[i] == e[k]);
    }
}
pub proof fn lemma_canon_same(e: Props)
    requires props_ok(e)
    ensures forall|x: (Seq<char>, Seq<char>)| canon(e).contains(x) ==> e.contains(x), forall|x: (Seq<char>, Seq<char>)| e.contains(x) ==> canon(e).contains(x)
{
    let n = e.len() as int;
    lemma_rest(e, n); lemma_pget(e, "prefix"@);
    let r = rest_of(e, n);
    let c = canon(e);
    let o = if pget(e, "prefix"@) is Some { 1int } else { 0int };
    assert forall|i: int| o <= i < c.len() implies c[i] == r[i - o] by { }
    assert forall|x: (Seq<char>, Seq<char>)| c.contains(x) implies e.contains(x) by {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
        if i >= o { assert(c[i] == r[i - o]); let j = choose|j: int| 0 <= j < n && e[j] == r[i - o]; assert(e[j] == x); }
    }
    assert forall|x: (Seq<char>, Seq<char>)| e.contains(x) implies c.contains(x) by {
        let k = choose|k: int| 0 <= k < e.len() && e[k] == x;
        if x.0 == "prefix"@ {
            let v = pget(e, "prefix"@)->0;
            let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == ("prefix"@, v);
            if i < k { assert(e[i].0 != e[k].0); } else if k < i { assert(e[k].0 != e[i].0); }
            assert(c[0] == x);
        } else { lemma_rest_has(e, n, k); let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(c[i + o] == x); }
    }
}
pub proof fn lemma_contents_len<I: Seek>(s: Seq<HV>, m: Table<I>, n: int)
    requires 0 <= n <= s.len(), sized(s, m)
    ensures contents(s, m, n).len() == sum_of(s, n)
    decreases n
{ if n > 0 { lemma_contents_len(s, m, n - 1); assert(s[n - 1].size == m[slash(s[n - 1].name)].0.data().len()); } }
/// the contents of entry k of the file are what was added
pub proof fn lemma_content_at<I: Seek>(s: Seq<HV>, m: Table<I>, n: int, k: int)
    requires 0 <= k < n <= s.len(), sized(s, m)
    ensures contents(s, m, n).skip(sum_of(s, k)).take(s[k].size as int) == m[slash(s[k].name)].0.data(), sum_of(s, k) >= 0, sum_of(s, k) + s[k].size <= contents(s, m, n).len()
    decreases n
{
    lemma_contents_len(s, m, n - 1);
    lemma_contents_len(s, m, k);
    lemma_sum(s, s, k);
    let d = m[slash(s[k].name)].0.data();
    assert(s[k].size == d.len());
    if k == n - 1 { assert(contents(s, m, n).skip(sum_of(s, k)).take(s[k].size as int) =~= d); } else {
        lemma_content_at(s, m, n - 1, k);
        assert(contents(s, m, n).skip(sum_of(s, k)).take(s[k].size as int) =~= contents(s, m, n - 1).skip(sum_of(s, k)).take(s[k].size as int));
    }
}
/// what the opened archive says
pub open spec fn part_of(e: Props, with_props: bool, s: Seq<HV>, blob: int) -> Part {
    Part { vers: if with_props { Some(vers_hv()) } else { None }, props: if with_props { canon(e) } else { Seq::empty() }, heads: s, blob }
}
pub open spec fn head_sec(e: Props, with_props: bool, s: Seq<HV>) -> Seq<u8> {
    (if with_props { vers_hv().bytes() + list_bytes(canon(e)) + seq![0u8] } else { Seq::<u8>::empty() }) + heads_f(s) + blank_hv().bytes()
}
pub proof fn lemma_head_sec(e: Props, with_props: bool, s: Seq<HV>, tail: Seq<u8>)
    requires props_ok(canon(e)), heads_ok(s)
    ensures heads_of(head_sec(e, with_props, s) + tail, start()) == Some((part_of(e, with_props, s, head_sec(e, with_props, s).len() as int), tail))
{
    hide(canon); hide(heads_f);
    let file = head_sec(e, with_props, s) + tail;
    let hs = heads_f(s) + blank_hv().bytes() + tail;
    let p = if with_props { Part { vers: Some(vers_hv()), props: canon(e), heads: Seq::empty(), blob: vers_hv().bytes().len() + list_bytes(canon(e)).len() as int + 1 } } else { start() };
    lemma_heads_back(s, tail, p);
    assert(p.heads + s =~= s);
    if with_props {
        lemma_empty_text();
        assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        let r = list_bytes(canon(e)) + seq![0u8] + hs;
        assert(file =~= vers_hv().bytes() + r);
        lemma_head_back(vers_hv(), r);
        assert(Seq::<(Seq<char>, Seq<char>)>::empty() + canon(e) =~= canon(e));
        lemma_props_back(canon(e), Seq::empty(), hs, 20 + room(Seq::<char>::empty()));
        assert(heads_of(file, start()) == heads_of(hs, p));
    } else { assert(file =~= hs); }
}
/// Packing, then opening: the same properties, the same entries in the order written, the stored checksum, nothing left
/// over; and each entry's contents stand where the opened archive looks for them.
pub proof fn theorem_reads_back<I: Seek>(e: Props, with_props: bool, s: Seq<HV>, m: Table<I>)
    requires props_ok(e), heads_ok(s), sized(s, m), sha1(signed_part(e, with_props, s, m)).len() == 20
    ensures ({
        let file = archive(e, with_props, s, m);
        let blob = signed_part(e, with_props, s, m).len() - sum_of(s, s.len() as int);
        &&& open_of(file) == Some((
            Part { vers: if with_props { Some(vers_hv()) } else { None }, props: if with_props { canon(e) } else { Seq::empty() }, heads: s, blob },
            sha1(signed_part(e, with_props, s, m)), Seq::<u8>::empty()))
        &&& forall|k: int| 0 <= k < s.len() ==> file.skip(blob + sum_of(s, k)).take((#[trigger] s[k]).size as int) == m[slash(s[k].name)].0.data()
    })
{
    hide(heads_of); hide(canon); hide(contents); hide(sum_of); hide(heads_f); hide(propsec);
    let n = s.len() as int;
    let sum = sha1(signed_part(e, with_props, s, m));
    let c = contents(s, m, n);
    let file = archive(e, with_props, s, m);
    let tail = c + seq![0u8] + sum;
    let hsec = head_sec(e, with_props, s);
    lemma_contents_len(s, m, n);
    lemma_heads_f(s, n);
    assert(s.take(n) =~= s);
    lemma_canon(e);
    lemma_sum(s, s, n);
    lemma_head_sec(e, with_props, s, tail);
    assert(signed_part(e, with_props, s, m) =~= hsec + c);
    assert(file =~= hsec + tail);
    assert(tail.skip(c.len() as int + 1).take(20) =~= sum);
    assert(tail.skip(c.len() as int + 21) =~= Seq::<u8>::empty());
    let blob = hsec.len() as int;
    assert forall|k: int| 0 <= k < s.len() implies file.skip(blob + sum_of(s, k)).take((#[trigger] s[k]).size as int) == m[slash(s[k].name)].0.data() by {
        lemma_content_at(s, m, n, k);
        assert(file.skip(blob + sum_of(s, k)).take(s[k].size as int) =~= c.skip(sum_of(s, k)).take(s[k].size as int));
    }
}
