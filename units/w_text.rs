#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- str: bytes and character boundaries (assumed contracts)
/// UTF-8 length of a character
pub open spec fn width(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) } }
/// byte position `n` of `s` is the boundary before character `k`
pub open spec fn bound(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
#[verifier::external_body] pub fn str_len(s: &str) -> (r: usize) ensures r == blen(s@) { unimplemented!() }
/// `s.get(..n)`
#[verifier::external_body] pub fn str_get_to(s: &str, n: usize) -> (r: Option<&str>)
    ensures r is Some <==> (exists|k: int| bound(s@, n as int, k)), r is Some ==> exists|k: int| bound(s@, n as int, k) && (r->0)@ == s@.take(k)
{ unimplemented!() }
/// `&s[n..]`: panics unless `n` is a boundary
#[verifier::external_body] pub fn str_from(s: &str, n: usize) -> (r: &str)
    requires exists|k: int| bound(s@, n as int, k)
    ensures exists|k: int| bound(s@, n as int, k) && r@ == s@.skip(k)
{ unimplemented!() }
pub open spec fn upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn lower(c: char) -> char { if upper(c) { (c as u8 + 32) as char } else { c } }
pub open spec fn same_ci(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
/// `a.eq_ignore_ascii_case(b)`
#[verifier::external_body] pub fn eq_ascii_ci(a: &str, b: &str) -> (r: bool) ensures r == same_ci(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }

proof fn lemma_blen_pos(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures blen(s.take(j)) - blen(s.take(i)) >= j - i
    decreases j
{ if i < j { assert(s.take(j).drop_last() =~= s.take(j - 1)); lemma_blen_pos(s, i, j - 1); } }
/// a position is the boundary before one character only
proof fn lemma_bound(s: Seq<char>, n: int, i: int, j: int)
    requires bound(s, n, i), bound(s, n, j)
    ensures i == j
{ if i < j { lemma_blen_pos(s, i, j); } else { lemma_blen_pos(s, j, i); } }
proof fn lemma_same_width(a: char, b: char)
    requires lower(a) == lower(b)
    ensures width(a) == width(b)
{
    if upper(a) { assert((lower(a) as u32) < 0x80) by { assert(a as u8 <= 90); let x = (a as u8 + 32) as u8; assert(x < 128); assert((x as char) as u32 == x as u32); } }
    if upper(b) { assert((lower(b) as u32) < 0x80) by { assert(b as u8 <= 90); let x = (b as u8 + 32) as u8; assert(x < 128); assert((x as char) as u32 == x as u32); } }
}
proof fn lemma_same_len(a: Seq<char>, b: Seq<char>)
    requires same_ci(a, b)
    ensures blen(a) == blen(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert(same_ci(a.drop_last(), b.drop_last())) by { assert forall|i: int| 0 <= i < a.len() - 1 implies lower(#[trigger] a.drop_last()[i]) == lower(b.drop_last()[i]) by { assert(lower(a[i]) == lower(b[i])); } }
        lemma_same_len(a.drop_last(), b.drop_last());
        assert(lower(a[a.len() - 1]) == lower(b[a.len() - 1]));
        lemma_same_width(a.last(), b.last());
    }
}
/// The text starts with the prefix, ignoring the case of ASCII letters; what remains.
pub open spec fn stripped(s: Seq<char>, p: Seq<char>) -> Option<Seq<char>> {
    if p.len() <= s.len() && same_ci(s.take(p.len() as int), p) { Some(s.skip(p.len() as int)) } else { None }
}
proof fn lemma_strip(s: Seq<char>, p: Seq<char>)
    ensures
        forall|k: int| bound(s, blen(p), k) && same_ci(#[trigger] s.take(k), p) ==> stripped(s, p) is Some && k == p.len(),
        stripped(s, p) is Some ==> bound(s, blen(p), p.len() as int) && forall|k: int| bound(s, blen(p), k) ==> k == p.len(),
{
    assert forall|k: int| bound(s, blen(p), k) && same_ci(#[trigger] s.take(k), p) implies stripped(s, p) is Some && k == p.len() by {}
    if stripped(s, p) is Some {
        lemma_same_len(s.take(p.len() as int), p);
        assert forall|k: int| bound(s, blen(p), k) implies k == p.len() by { lemma_bound(s, blen(p), k, p.len() as int); }
    }
}
//@extract libs/common/src/strip.rs | impl StripInsensitive for str @ fn strip_prefix_insensitive
//@sub fn strip_prefix_insensitive\(&self, prefix: &str\) ==> fn strip_prefix_insensitive<'a>(this: &'a str, prefix: &str)
//@sub -> Option<&str> ==> -> Option<&'a str>
//@sub self\.get\(\.\.prefix\.len\(\)\) ==> str_get_to(this, str_len(prefix))
//@sub \b([a-z_]+\([^?]*\)\?)\.eq_ignore_ascii_case\(prefix\) ==> eq_ascii_ci(\1, prefix)
//@sub &self\[prefix\.len\(\)\.\.\] ==> str_from(this, str_len(prefix))
//@spec
    ensures r is Some <==> stripped(this@, prefix@) is Some, r is Some ==> Some((r->0)@) == stripped(this@, prefix@)
//@entry
    proof { lemma_strip(this@, prefix@); }
//@end

// ---------------------------------------------------------------- line and column
pub open spec fn breaks(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { breaks(s.drop_last()) + if s.last() == '\n' { 1int } else { 0 } } }
/// characters since the last line break
pub open spec fn since(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 || s.last() == '\n' { 0 } else { since(s.drop_last()) + 1 } }
pub open spec fn before(s: Seq<char>, o: int) -> Seq<char> { s.take(if o < s.len() { o } else { s.len() as int }) }
//@extract libs/workspace/src/position.rs | struct LineCol
//@end
impl LineCol {
//@extract libs/workspace/src/position.rs | impl LineCol @ fn from_content
//@sub for \(i, c\) in content\.chars\(\)\.enumerate\(\) ==> for (i, c) in seq(chars_of(content)).enumerate()
//@spec
    requires content@.len() < usize::MAX
    ensures r.0 == offset, (r.1).0 == 1 + breaks(before(content@, offset as int)), (r.1).1 == 1 + since(before(content@, offset as int))
//@index 0
//@loop 0 for
    invariant_except_break vs0@ == content@, content@.len() < usize::MAX, 0 <= ix0 <= vs0@.len(), ix0 <= offset,
        line == 1 + breaks(vs0@.take(ix0 as int)), column == 1 + since(vs0@.take(ix0 as int)),
        breaks(vs0@.take(ix0 as int)) <= ix0, since(vs0@.take(ix0 as int)) <= ix0,
    ensures line == 1 + breaks(before(content@, offset as int)), column == 1 + since(before(content@, offset as int)),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { let p = content@.take(ix0 as int); assert(p.drop_last() =~= content@.take(ix0 - 1)); assert(p.last() == c); }
//@end
//@extract libs/workspace/src/position.rs | impl LineCol @ fn line
//@spec
    ensures r == (self.1).0
//@end
//@extract libs/workspace/src/position.rs | impl LineCol @ fn column
//@spec
    ensures r == (self.1).1
//@end
//@extract libs/workspace/src/position.rs | impl LineCol @ fn offset
//@spec
    ensures r == self.0
//@end
}
}
fn main() {}
