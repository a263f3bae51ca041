/// where the contents of entry k begin, relative to the first one
pub open spec fn start_of(h: Seq<Header>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { start_of(h, k - 1) + h[k - 1].size } }
pub open spec fn total(h: Seq<Header>) -> int { start_of(h, h.len() as int) }
/// the first entry with this name, ignoring case and slash direction
pub open spec fn lookup_from(h: Seq<Header>, name: Seq<char>, k: int) -> Option<int>
    decreases h.len() - k
{
    if k < 0 || k >= h.len() { None } else if key(h[k].filename@) == key(name) { Some(k) } else { lookup_from(h, name, k + 1) }
}
pub open spec fn lookup(h: Seq<Header>, name: Seq<char>) -> Option<int> { lookup_from(h, name, 0) }
pub open spec fn entry(data: Seq<u8>, blob: int, h: Seq<Header>, k: int) -> Seq<u8> {
    let t = tail_of(data, blob + start_of(h, k));
    t.take(if h[k].size <= t.len() { h[k].size as int } else { t.len() as int })
}
pub proof fn lemma_start_total(h: Seq<Header>, k: int)
    requires 0 <= k <= h.len()
    ensures 0 <= start_of(h, k) <= total(h), k > 0 ==> start_of(h, k) == start_of(h, k - 1) + h[k - 1].size && start_of(h, k - 1) >= 0
    decreases h.len() - k
{
    if k < h.len() { lemma_start_total(h, k + 1); }
    lemma_start_nonneg(h, k);
    if k > 0 { lemma_start_nonneg(h, k - 1); }
}
pub proof fn lemma_start_nonneg(h: Seq<Header>, k: int)
    requires 0 <= k
    ensures 0 <= start_of(h, k)
    decreases k
{ if k > 0 { lemma_start_nonneg(h, k - 1); } }
pub proof fn lemma_lookup_from(h: Seq<Header>, name: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < h.len(), forall|j: int| i <= j < k ==> key(h[j].filename@) != key(name), key(h[k].filename@) == key(name)
    ensures lookup_from(h, name, i) == Some(k)
    decreases k - i
{ if i < k { lemma_lookup_from(h, name, i + 1, k); } }
pub proof fn lemma_lookup(h: Seq<Header>, name: Seq<char>, k: int)
    requires 0 <= k < h.len(), forall|j: int| 0 <= j < k ==> key(h[j].filename@) != key(name)
    ensures key(h[k].filename@) == key(name) ==> lookup(h, name) == Some(k)
{ if key(h[k].filename@) == key(name) { lemma_lookup_from(h, name, 0, k); } }
pub proof fn lemma_none_from(h: Seq<Header>, name: Seq<char>, i: int)
    requires 0 <= i <= h.len(), forall|j: int| i <= j < h.len() ==> key(h[j].filename@) != key(name)
    ensures lookup_from(h, name, i) is None
    decreases h.len() - i
{ if i < h.len() { lemma_none_from(h, name, i + 1); } }
pub proof fn lemma_lookup_none(h: Seq<Header>, name: Seq<char>)
    requires forall|j: int| 0 <= j < h.len() ==> key(h[j].filename@) != key(name)
    ensures lookup(h, name) is None
{ lemma_none_from(h, name, 0); }
