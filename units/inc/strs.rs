// ---------------------------------------------------------------- str and String as character sequences (assumed contracts of std)
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && white(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && white(s[0]) { trim_start(s.skip(1)) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
/// the parts between the occurrences of `c`
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] } else {
        let p = split(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn joined(p: Seq<Seq<char>>, c: char) -> Seq<char>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(p.drop_last(), c).push(c) + p.last() } }
/// `str::lines`: the parts between line feeds without a last empty one, each without a carriage return at its end
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> {
    let p = split(s, '\n');
    let q = if p.last().len() == 0 { p.drop_last() } else { p };
    Seq::new(q.len(), |i: int| if (i + 1 < p.len()) && q[i].len() > 0 && q[i].last() == '\r' { q[i].drop_last() } else { q[i] })
}
pub open spec fn at(s: Seq<char>, t: Seq<char>, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn views_str(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

#[verifier::external_body] pub fn str_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body] pub fn str_lower(s: &str) -> (r: String) ensures r@ == lowered(s@) { unimplemented!() }
#[verifier::external_body] pub fn str_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn str_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
#[verifier::external_body] pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn str_starts(s: &str, t: &str) -> (r: bool) ensures r == at(s@, t@, 0) { unimplemented!() }
#[verifier::external_body] pub fn str_starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn str_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn opt_string(s: Option<&str>) -> (r: Option<String>) ensures r is Some <==> s is Some, r is Some ==> (r->0)@ == (s->0)@ { unimplemented!() }
/// `s.split(c).map(ToString::to_string).collect()`
#[verifier::external_body] pub fn split_strings(s: &str, c: char) -> (r: Vec<String>) ensures views(r@) == split(s@, c) { unimplemented!() }
/// `v.join(c)` for a one-character separator
#[verifier::external_body] pub fn join_strings(v: &Vec<String>, c: char) -> (r: String) ensures r@ == joined(views(v@), c) { unimplemented!() }
/// `s.lines()`
#[verifier::external_body] pub fn str_lines(s: &str) -> (r: Vec<&str>) ensures views_str(r@) == lines_of(s@) { unimplemented!() }
/// position of the first occurrence of `t`, -1 for none
pub open spec fn find(s: Seq<char>, t: Seq<char>) -> int
    decreases s.len()
{ if at(s, t, 0) { 0 } else if s.len() == 0 { -1 } else { let r = find(s.skip(1), t); if r < 0 { -1 } else { r + 1 } } }
/// position of the last occurrence
pub open spec fn find_last(s: Seq<char>, t: Seq<char>) -> int
    decreases s.len()
{ if at(s, t, s.len() - t.len()) { s.len() - t.len() } else if s.len() == 0 { -1 } else { find_last(s.drop_last(), t) } }
/// before and after the first occurrence of `t`
pub open spec fn cut(s: Seq<char>, t: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if find(s, t) < 0 { None } else { Some((s.take(find(s, t)), s.skip(find(s, t) + t.len()))) } }
pub open spec fn cut_last(s: Seq<char>, t: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if find_last(s, t) < 0 { None } else { Some((s.take(find_last(s, t)), s.skip(find_last(s, t) + t.len()))) } }
pub open spec fn pair(r: Option<(&str, &str)>) -> Option<(Seq<char>, Seq<char>)> { match r { None => None, Some((a, b)) => Some((a@, b@)) } }
#[verifier::external_body] pub fn str_cut<'a>(s: &'a str, t: &str) -> (r: Option<(&'a str, &'a str)>) ensures cut(s@, t@) == pair(r) { unimplemented!() }
#[verifier::external_body] pub fn str_cut_last<'a>(s: &'a str, t: &str) -> (r: Option<(&'a str, &'a str)>) ensures cut_last(s@, t@) == pair(r) { unimplemented!() }
/// `s.split(c)`, not yet consumed parts
#[verifier::external_body] pub struct Parts<'a> { p: core::marker::PhantomData<&'a str> }
impl<'a> Parts<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && (r->0)@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1)
    { unimplemented!() }
}
#[verifier::external_body] pub fn str_split<'a>(s: &'a str, c: char) -> (r: Parts<'a>) ensures r.rest() == split(s@, c) { unimplemented!() }

proof fn lemma_split_len(s: Seq<char>, c: char)
    ensures split(s, c).len() >= 1
    decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
/// joining the parts gives the text back
proof fn lemma_join_split(s: Seq<char>, c: char)
    ensures joined(split(s, c), c) == s
    decreases s.len()
{
    if s.len() > 0 {
        let p = split(s.drop_last(), c);
        lemma_join_split(s.drop_last(), c);
        lemma_split_len(s.drop_last(), c);
        if s.last() == c {
            assert(split(s, c).drop_last() =~= p);
            assert(joined(p, c).push(c) + Seq::<char>::empty() =~= s);
        } else {
            let q = split(s, c);
            assert(q.drop_last() =~= p.drop_last());
            if p.len() == 1 { assert(q[0] == p[0].push(s.last())); assert(s =~= s.drop_last().push(s.last())); }
            else { assert(joined(q, c) =~= joined(p, c).push(s.last())); }
        }
    }
}
/// no part contains the separator
proof fn lemma_parts_clean(s: Seq<char>, c: char)
    ensures forall|i: int| 0 <= i < split(s, c).len() ==> !(#[trigger] split(s, c)[i]).contains(c)
    decreases s.len()
{
    if s.len() > 0 {
        let p = split(s.drop_last(), c);
        lemma_parts_clean(s.drop_last(), c); lemma_split_len(s.drop_last(), c);
        assert forall|i: int| 0 <= i < split(s, c).len() implies !(#[trigger] split(s, c)[i]).contains(c) by {
            if s.last() == c { if i < p.len() { assert(split(s, c)[i] == p[i]); } }
            else if i < p.len() - 1 { assert(split(s, c)[i] == p[i]); }
            else {
                let q = p.last().push(s.last());
                if q.contains(c) { let j = choose|j: int| 0 <= j < q.len() && q[j] == c; assert(j < p.last().len()); assert(p.last()[j] == c); assert(p.last().contains(c)); }
            }
        }
    }
}
/// appending text without the separator extends the last part
proof fn lemma_split_append(a: Seq<char>, b: Seq<char>, c: char)
    requires !b.contains(c)
    ensures split(a + b, c) == split(a, c).drop_last().push(split(a, c).last() + b)
    decreases b.len()
{
    lemma_split_len(a, c);
    let p = split(a, c);
    if b.len() == 0 { assert(a + b =~= a); assert(p.last() + b =~= p.last()); assert(p.drop_last().push(p.last()) =~= p); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(b.contains(b.last()));
        if b.drop_last().contains(c) { let j = choose|j: int| 0 <= j < b.len() - 1 && b.drop_last()[j] == c; assert(b[j] == c); }
        lemma_split_append(a, b.drop_last(), c);
        let q = split(a + b.drop_last(), c);
        assert(q.last() == p.last() + b.drop_last());
        assert(q.last().push(b.last()) =~= p.last() + b);
        assert(q.drop_last() =~= p.drop_last());
    }
}
proof fn lemma_split_none(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures split(s, c) == seq![s]
{
    lemma_split_append(Seq::empty(), s, c);
    assert(Seq::<char>::empty() + s =~= s);
    assert(seq![Seq::<char>::empty()].drop_last().push(Seq::<char>::empty() + s) =~= seq![s]);
}
/// a + c + b with no separator in b: one part more
proof fn lemma_split_more(a: Seq<char>, b: Seq<char>, c: char)
    requires !b.contains(c)
    ensures split(a.push(c) + b, c) == split(a, c).push(b)
{
    assert(a.push(c).drop_last() =~= a);
    lemma_split_append(a.push(c), b, c);
    let p = split(a, c);
    assert(split(a.push(c), c) == p.push(Seq::empty()));
    assert(p.push(Seq::empty()).drop_last() =~= p);
    assert(Seq::<char>::empty() + b =~= b);
}

//@include inc/fmt.rs
/// `s.push_str(&x)`
#[verifier::external_body] pub fn push_text(s: &mut String, x: String) ensures final(s)@ == old(s)@ + x@ { unimplemented!() }
