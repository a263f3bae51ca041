#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
verus! {
//@include inc/strs.rs
//@include inc/prefixnew.rs
impl Prefix {
//@extract libs/common/src/prefix.rs | impl Prefix @ fn into_inner
//@spec
    ensures views(r@) == self.parts()
//@end
//@extract libs/common/src/prefix.rs | impl Prefix @ fn main_prefix
//@spec
    requires self.parts().len() >= 1
    ensures r@ == self.parts()[0]
//@sub &self\.0\[0\] ==> self.0[0].as_str()
//@entry
    proof { assert(self.parts()[0] == self.0@[0]@); }
//@end
//@extract libs/common/src/prefix.rs | impl Prefix @ fn mod_prefix
//@sub self\.0\.get\((\d+)\)\.map\(std::string::String::as_str\) ==> get_text(&self.0, \1)
//@spec
    ensures r is Some <==> self.parts().len() >= 2, r is Some ==> (r->0)@ == self.parts()[1]
//@end
//@extract libs/common/src/prefix.rs | impl Prefix @ fn as_pathbuf
//@sub PathBuf::from\( ==> PathBuf::of(
//@sub for part in &self\.0\[1\.\.\] ==> for part in &rest_of(&self.0)
//@spec
    requires self.parts().len() >= 1
    ensures r.steps() == self.parts()
//@index 0
//@loop 0 for
    invariant self.parts().len() >= 1, views(vs0@) == self.parts().skip(1), 0 <= ix0 <= vs0@.len(), path.steps() == self.parts().take(ix0 + 1)
    decreases vs0@.len() - ix0
//@loopinit 0
    proof { assert(path.steps() =~= self.parts().take(1)); }
//@loopstart 0
    proof { assert(views(vs0@)[ix0 - 1] == part@); assert(views(vs0@).len() == vs0@.len()); assert(self.parts().take(ix0 + 1) =~= self.parts().take(ix0 as int).push(part@)); }
//@after path\.push\(part\);\s*\}
    proof { assert(views(vs0@).len() == vs0@.len()); assert(self.parts().take(self.parts().len() as int) =~= self.parts()); }
//@end
}
#[verifier::external_body] pub fn get_text(v: &Vec<String>, i: usize) -> (r: Option<&str>) ensures r is Some <==> i < v@.len(), r is Some ==> (r->0)@ == views(v@)[i as int] { unimplemented!() }
/// `&v[1..]`: panics when empty
#[verifier::external_body] pub fn rest_of(v: &Vec<String>) -> (r: Vec<String>) requires v@.len() >= 1 ensures views(r@) == views(v@).skip(1) { unimplemented!() }
/// std::path::PathBuf: the components pushed
#[verifier::external_body] pub struct PathBuf { p: String }
impl PathBuf {
    pub uninterp spec fn steps(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn of(s: &String) -> (r: Self) ensures r.steps() == seq![s@] { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: &String) ensures final(self).steps() == old(self).steps().push(s@) { unimplemented!() }
}

// ---------------------------------------------------------------- theorems
/// every accepted file gives at least one component
proof fn theorem_one_component(content: Seq<char>)
    ensures meaning(content) is Some ==> (meaning(content)->0).len() >= 1
{ lemma_split_len(trimmed(content), '\\'); let k = keyed(lines_of(trimmed(content))); if k is Some { lemma_split_len(k->0, '\\'); } }
/// printing the components of a path gives the path back
proof fn theorem_printed(p: Seq<char>)
    ensures path(p) is Some ==> joined(path(p)->0, '\\') == p
{ lemma_join_split(p, '\\'); }
proof fn lemma_trim_idem(s: Seq<char>)
    ensures trimmed(trimmed(s)) == trimmed(s), trimmed(s).len() > 0 ==> !white(trimmed(s)[0]) && !white(trimmed(s).last())
{ lemma_ts(s); lemma_te(trim_start(s)); }
proof fn lemma_ts(s: Seq<char>)
    ensures trim_start(s).len() > 0 ==> !white(trim_start(s)[0])
    decreases s.len()
{ if s.len() > 0 && white(s[0]) { lemma_ts(s.skip(1)); } }
/// cutting white space off the end leaves the start alone
proof fn lemma_te(s: Seq<char>)
    ensures trim_end(s).len() > 0 ==> !white(trim_end(s).last()) && trim_end(s)[0] == s[0], trim_end(s).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 && white(s.last()) { lemma_te(s.drop_last()); } }
/// A single line holding a path, with white space around it: exactly its components; printed and parsed again, the same.
proof fn theorem_single(content: Seq<char>, p: Seq<char>)
    requires p == trimmed(content), p.len() > 0, !p.contains('/'), !p.contains('='), !p.contains('\n'), p[0] != '\\'
    ensures meaning(content) == Some(split(p, '\\')), joined(meaning(content)->0, '\\') == p, meaning(p) == meaning(content)
{
    lemma_split_none(p, '\n');
    lemma_trim_idem(content);
    lemma_join_split(p, '\\');
    assert(seq![p].last() == p);
    assert(lines_of(p).len() == 1);
}
/// An accepted path never contains a slash and never begins with a backslash.
proof fn theorem_rejected(content: Seq<char>)
    ensures trimmed(content).len() == 0 ==> meaning(content) is None, trimmed(content).contains('/') ==> meaning(content) is None, trimmed(content).len() > 0 && trimmed(content)[0] == '\\' && !trimmed(content).contains('=') && lines_of(trimmed(content)).len() == 1 ==> meaning(content) is None
{}
}
fn main() {}
