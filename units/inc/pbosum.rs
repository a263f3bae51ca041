// ---------------------------------------------------------------- the checksum generated anew is the one stored
/// a stable sort leaves alone what is in order (assumed contract of <[T]>::sort_by)
pub axiom fn csort_kept(h: Seq<HV>)
    requires forall|i: int, j: int| 0 <= i < j < h.len() ==> cord(#[trigger] h[i], #[trigger] h[j]) != Ordering::Greater
    ensures csort(h) == h;
pub open spec fn distinct_keys(s: Seq<HV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key((#[trigger] s[i]).name) != key((#[trigger] s[j]).name) }
pub proof fn lemma_lookup_one(h: Seq<Header>, k: int)
    requires 0 <= k < h.len(), distinct_keys(hvs(h))
    ensures lookup(h, h[k].filename@) == Some(k)
{
    assert forall|j: int| 0 <= j < k implies key(h[j].filename@) != key(h[k].filename@) by { assert(hvs(h)[j].name == h[j].filename@ && hvs(h)[k].name == h[k].filename@); }
    lemma_lookup(h, h[k].filename@, k);
}
pub proof fn lemma_pget_none(e: Props, k: Seq<char>)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k
    ensures pget(e, k) is None
    decreases e.len()
{ if e.len() > 0 { assert(e[0].0 != k); assert forall|i: int| 0 <= i < e.skip(1).len() implies (#[trigger] e.skip(1)[i]).0 != k by { assert(e.skip(1)[i] == e[i + 1]); } lemma_pget_none(e.skip(1), k); } }
pub proof fn lemma_rest_again(c: Props, o: int, r: Props, n: int)
    requires 0 <= o <= n <= c.len(), c.len() == o + r.len(),
        forall|i: int| 0 <= i < o ==> (#[trigger] c[i]).0 == "prefix"@,
        forall|i: int| o <= i < c.len() ==> #[trigger] c[i] == r[i - o] && c[i].0 != "prefix"@,
    ensures rest_of(c, n) == r.take(n - o)
    decreases n
{
    if n == o { lemma_rest_none(c, o); assert(r.take(0) =~= Seq::<(Seq<char>, Seq<char>)>::empty()); } else {
        lemma_rest_again(c, o, r, n - 1);
        assert(c[n - 1].0 != "prefix"@);
        assert(r.take(n - o) =~= r.take(n - 1 - o).push(c[n - 1]));
    }
}
pub proof fn lemma_rest_none(c: Props, n: int)
    requires 0 <= n <= c.len(), forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).0 == "prefix"@
    ensures rest_of(c, n) == Seq::<(Seq<char>, Seq<char>)>::empty()
    decreases n
{ if n > 0 { assert(c[n - 1].0 == "prefix"@); lemma_rest_none(c, n - 1); } }
pub proof fn lemma_propsec_again(e: Props)
    requires props_ok(e)
    ensures propsec(canon(e)) == propsec(e)
{
    let c = canon(e);
    let r = rest_of(e, e.len() as int);
    lemma_rest(e, e.len() as int);
    lemma_canon(e);
    lemma_canon(c);
    let o = if pget(e, "prefix"@) is Some { 1int } else { 0int };
    assert forall|i: int| o <= i < c.len() implies #[trigger] c[i] == r[i - o] && c[i].0 != "prefix"@ by { assert(r[i - o].0 != "prefix"@); }
    lemma_rest_again(c, o, r, c.len() as int);
    assert(r.take(r.len() as int) =~= r);
    if o == 1 { assert(pget(c, "prefix"@) == pget(e, "prefix"@)); } else { lemma_pget_none(c, "prefix"@); }
    assert(canon(c) =~= c);
}
pub proof fn lemma_arc_contents<I: Seek>(a: Arc, s: Seq<HV>, m: Table<I>, n: int)
    requires
        0 <= n <= s.len(), hvs(a.heads) == s, a.sorted() == s, distinct_keys(s), sized(s, m), a.blob >= 0,
        a.blob + sum_of(s, s.len() as int) <= a.data.len(),
        forall|k: int| 0 <= k < s.len() ==> a.data.skip(a.blob + sum_of(s, k)).take((#[trigger] s[k]).size as int) == m[slash(s[k].name)].0.data(),
    ensures a.contents(n) == contents(s, m, n)
    decreases n
{
    if n > 0 {
        lemma_arc_contents(a, s, m, n - 1);
        let k = n - 1;
        assert(hvs(a.heads)[k] == a.heads[k].hv());
        lemma_lookup_one(a.heads, k);
        lemma_sum_total(a.heads, k);
        lemma_sum(s, s, k);
        lemma_start_total(a.heads, k + 1);
        lemma_sum_total(a.heads, s.len() as int);
        assert(s[k].size == a.heads[k].size);
        assert(entry(a.data, a.blob, a.heads, k) =~= a.data.skip(a.blob + sum_of(s, k)).take(s[k].size as int));
    }
}
/// what gen_checksum hashes of the archive that was packed and opened again is what was hashed when it was packed
pub proof fn theorem_checksum<I: Seek>(e: Props, with_props: bool, s: Seq<HV>, m: Table<I>, h: Seq<Header>, vers: Option<Header>)
    requires
        props_ok(e), heads_ok(s), sized(s, m), sorted(s), distinct_keys(s), sha1(signed_part(e, with_props, s, m)).len() == 20,
        hvs(h) == s, with_props <==> vers is Some, with_props ==> vers->0.hv() == vers_hv(),
    ensures ({
        let blob = signed_part(e, with_props, s, m).len() - sum_of(s, s.len() as int);
        let a = Arc { heads: h, data: archive(e, with_props, s, m), blob };
        a.summed(vers, if with_props { canon(e) } else { Seq::empty() }) == signed_part(e, with_props, s, m)
    })
{
    hide(canon); hide(contents); hide(sum_of); hide(heads); hide(propsec); hide(Arc::contents);
    let n = s.len() as int;
    let blob = signed_part(e, with_props, s, m).len() - sum_of(s, n);
    let a = Arc { heads: h, data: archive(e, with_props, s, m), blob };
    theorem_reads_back(e, with_props, s, m);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies cord(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater by { assert(vord(s[i], s[j]) != Ordering::Greater); }
    csort_kept(s);
    lemma_contents_len(s, m, n);
    lemma_arc_contents(a, s, m, n);
    lemma_propsec_again(e);
    lemma_propsec_none();
    assert(h.len() == n);
    let p = if with_props { canon(e) } else { Seq::empty() };
    assert(a.summed(vers, p) =~= signed_part(e, with_props, s, m));
}
pub proof fn lemma_propsec_none() ensures propsec(Seq::empty()) == Seq::<u8>::empty()
{ assert(others(Seq::empty(), 0) == Seq::<u8>::empty()); assert(pget(Seq::empty(), "prefix"@) is None); assert(propsec(Seq::empty()) =~= Seq::<u8>::empty()); }
