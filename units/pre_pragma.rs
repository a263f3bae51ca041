#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/tokens.rs assumed
//@include inc/ifstate.rs assumed
//@include inc/prews.rs assumed
//@include inc/prehelp.rs
/// std::collections::HashMap<K, V> with a fieldless enum key: a finite map (assumed contract)
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[derive(Debug)] pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self.map().dom().contains(*k), r is Some ==> *r->0 == self.map()[*k]
    { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).map() == old(self).map().remove(*k) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).map() == Map::<K, V>::empty() { unimplemented!() }
    /// the entries, each once, in an unknown order
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&K, &V)>) ensures lists(r@, self.map()) { unimplemented!() }
    #[verifier::external_body] pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: &K, v: &V| #[trigger] f.requires((k, v)),
        ensures
            forall|k: K| #![trigger final(self).map().dom().contains(k)] final(self).map().dom().contains(k) ==> old(self).map().dom().contains(k) && final(self).map()[k] == old(self).map()[k] && f.ensures((&k, &old(self).map()[k]), true),
            forall|k: K| #![trigger final(self).map().dom().contains(k)] old(self).map().dom().contains(k) && !final(self).map().dom().contains(k) ==> f.ensures((&k, &old(self).map()[k]), false),
    { unimplemented!() }
}
pub open spec fn lists<K, V>(es: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.dom().contains(*(#[trigger] es[i]).0) && *es[i].1 == m[*es[i].0]
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == k
}

//@extract libs/preprocessor/src/processor/pragma.rs | enum Scope
//@pub
//@attr #[derive(Clone, Copy)]
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | enum Flag
//@pub
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | enum Suppress
//@pub
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | struct Pragma
//@pub
//@end
impl Clone for Flag { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Suppress { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub struct PragmaInvalidSuppress {}
impl PragmaInvalidSuppress { #[verifier::external_body] pub fn code(t: Token) -> Error { unimplemented!() } }
pub struct PragmaInvalidFlag {}
impl PragmaInvalidFlag { #[verifier::external_body] pub fn code(t: Token) -> Error { unimplemented!() } }

// ---------------------------------------------------------------- what a scope means
pub open spec fn rank(s: Scope) -> int { match s { Scope::Line => 0, Scope::File => 1, Scope::Config => 2 } }
/// what an included file starts with: only what has config scope
pub open spec fn inherited<K>(m: Map<K, Scope>, r: Map<K, Scope>) -> bool {
    forall|k: K| #![trigger r.dom().contains(k)] (r.dom().contains(k) <==> m.dom().contains(k) && m[k] == Scope::Config) && (r.dom().contains(k) ==> r[k] == m[k])
}
/// what is left after a line
pub open spec fn after_line<K>(m: Map<K, Scope>, r: Map<K, Scope>) -> bool {
    forall|k: K| #![trigger r.dom().contains(k)] (r.dom().contains(k) <==> m.dom().contains(k) && m[k] != Scope::Line) && (r.dom().contains(k) ==> r[k] == m[k])
}
/// a pragma for `k`: the wider of the scope in force and the new one
pub open spec fn widened<K>(m: Map<K, Scope>, k: K, s: Scope) -> Map<K, Scope> {
    if m.dom().contains(k) && rank(m[k]) > rank(s) { m } else { m.insert(k, s) }
}
pub open spec fn scope_named(t: Seq<char>) -> Option<Scope> {
    if t == "line"@ { Some(Scope::Line) } else if t == "file"@ { Some(Scope::File) } else if t == "config"@ { Some(Scope::Config) } else { None }
}
pub open spec fn flag_named(t: Seq<char>) -> Option<Flag> {
    if t == "pw3_ignore_format"@ { Some(Flag::Pw3IgnoreFormat) } else if t == "pe23_ignore_has_include"@ { Some(Flag::Pe23IgnoreIfHasInclude) } else { None }
}
pub open spec fn suppress_named(t: Seq<char>) -> Option<Suppress> {
    if t == "pw3_padded_arg"@ { Some(Suppress::Pw3PaddedArg) } else { None }
}
/// A wider scope in force is never shortened, other entries are untouched.
proof fn theorem_never_shortened<K>(m: Map<K, Scope>, k: K, s: Scope, j: K)
    ensures m.dom().contains(j) ==> widened(m, k, s).dom().contains(j) && rank(widened(m, k, s)[j]) >= rank(m[j]),
        widened(m, k, s).dom().contains(k), rank(widened(m, k, s)[k]) >= rank(s),
        j != k ==> (widened(m, k, s).dom().contains(j) <==> m.dom().contains(j)) && (m.dom().contains(j) ==> widened(m, k, s)[j] == m[j])
{}
impl Scope {
//@extract libs/preprocessor/src/processor/pragma.rs | impl TryFrom<&str> for Scope @ fn try_from
//@sub Self::Error ==> ()
//@spec
    ensures r is Ok <==> scope_named(value@) is Some, r is Ok ==> Some(r->Ok_0) == scope_named(value@)
//@entry
    proof { lits(); }
//@end
}
impl Flag {
//@extract libs/preprocessor/src/processor/pragma.rs | impl TryFrom<&str> for Flag @ fn try_from
//@sub Self::Error ==> ()
//@spec
    ensures r is Ok <==> flag_named(value@) is Some, r is Ok ==> Some(r->Ok_0) == flag_named(value@)
//@entry
    proof { lits(); }
//@end
}
impl Suppress {
//@extract libs/preprocessor/src/processor/pragma.rs | impl TryFrom<&str> for Suppress @ fn try_from
//@sub Self::Error ==> ()
//@spec
    ensures r is Ok <==> suppress_named(value@) is Some, r is Ok ==> Some(r->Ok_0) == suppress_named(value@)
//@entry
    proof { lits(); }
//@end
}
proof fn lits()
    ensures "line"@ != "file"@, "line"@ != "config"@, "file"@ != "config"@, "pw3_ignore_format"@ != "pe23_ignore_has_include"@
{
    reveal_strlit("line"); reveal_strlit("file"); reveal_strlit("config"); reveal_strlit("pw3_ignore_format"); reveal_strlit("pe23_ignore_has_include");
    assert("line"@[0] == 'l'); assert("file"@[0] == 'f'); assert("config"@[0] == 'c'); assert("pw3_ignore_format"@[1] == 'w'); assert("pe23_ignore_has_include"@[1] == 'e');
}

impl Pragma {
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn root
//@spec
    ensures r.root, r.suppress.map() == Map::<Suppress, Scope>::empty(), r.flags.map() == Map::<Flag, Scope>::empty()
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn child
//@sub in &self\.suppress \{ ==> in seq(self.suppress.entries()) {
//@sub in &self\.flags \{ ==> in seq(self.flags.entries()) {
//@spec
    ensures !r.root, inherited(self.suppress.map(), r.suppress.map()), inherited(self.flags.map(), r.flags.map())
//@index 0
//@loop 0 for
    invariant lists(vs0@, self.suppress.map()), 0 <= ix0 <= vs0@.len(),
        forall|k: Suppress| #[trigger] map.map().dom().contains(k) ==> self.suppress.map().dom().contains(k) && self.suppress.map()[k] == Scope::Config && map.map()[k] == Scope::Config,
        forall|i: int| 0 <= i < ix0 && *(#[trigger] vs0[i]).1 == Scope::Config ==> map.map().dom().contains(*vs0[i].0),
    decreases vs0@.len() - ix0
//@index 1
//@loop 1 for
    invariant lists(vs1@, self.flags.map()), 0 <= ix1 <= vs1@.len(),
        forall|k: Flag| #[trigger] map.map().dom().contains(k) ==> self.flags.map().dom().contains(k) && self.flags.map()[k] == Scope::Config && map.map()[k] == Scope::Config,
        forall|i: int| 0 <= i < ix1 && *(#[trigger] vs1[i]).1 == Scope::Config ==> map.map().dom().contains(*vs1[i].0),
    decreases vs1@.len() - ix1
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn clear_line
//@sub self\.suppress\.retain\(\|_, (\w+)\| (.*?)\); ==> self.suppress.retain(|k_: &Suppress, \1: &Scope| -> (b: bool) ensures b == (*\1 != Scope::Line) { \2 });
//@sub self\.flags\.retain\(\|_, (\w+)\| (.*?)\); ==> self.flags.retain(|k_: &Flag, \1: &Scope| -> (b: bool) ensures b == (*\1 != Scope::Line) { \2 });
//@spec
    ensures final(self).root == old(self).root, after_line(old(self).suppress.map(), final(self).suppress.map()), after_line(old(self).flags.map(), final(self).flags.map())
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn is_suppressed
//@spec
    ensures r == self.suppress.map().dom().contains(*code)
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn is_flagged
//@spec
    ensures r == self.flags.map().dom().contains(*code)
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn suppress
//@spec
    ensures final(self).root == old(self).root, final(self).flags == old(self).flags,
        r is Ok <==> suppress_named(token.text()) is Some,
        r is Ok ==> final(self).suppress.map() == widened(old(self).suppress.map(), suppress_named(token.text())->0, scope),
        r is Err ==> final(self).suppress == old(self).suppress,
//@end
//@extract libs/preprocessor/src/processor/pragma.rs | impl Pragma @ fn flag
//@spec
    ensures final(self).root == old(self).root, final(self).suppress == old(self).suppress,
        r is Ok <==> flag_named(token.text()) is Some,
        r is Ok ==> final(self).flags.map() == widened(old(self).flags.map(), flag_named(token.text())->0, scope),
        r is Err ==> final(self).flags == old(self).flags,
//@end
}

// ---------------------------------------------------------------- where pragmas are read and dropped
pub open spec fn no_line(p: Pragma) -> bool {
    &&& forall|k: Suppress| #[trigger] p.suppress.map().dom().contains(k) ==> p.suppress.map()[k] != Scope::Line
    &&& forall|k: Flag| #[trigger] p.flags.map().dom().contains(k) ==> p.flags.map()[k] != Scope::Line
}
/// the code and the scope written after `suppress` or `flag` (None: an error)
pub open spec fn pragma_args(s: Toks) -> Option<(Seq<char>, Scope)> {
    let s1 = skip_ws(s);
    let s2 = skip_ws(s1.skip(1));
    if !(s1[0].symbol is Word) { None }
    else if s2.len() == 0 || s2[0].symbol is Newline || s2[0].symbol is Eoi { Some((s1[0].text(), Scope::Line)) }
    else if !(s2[0].symbol is Word) || scope_named(s2[0].text()) is None || !blank_line(s2.skip(1)) { None }
    else { Some((s1[0].text(), scope_named(s2[0].text())->0)) }
}
/// what `#pragma` with the tokens `s` after it does to the pragmas in force
pub open spec fn pragma_step(p: Pragma, s: Toks, n: Pragma) -> bool {
    let s1 = skip_ws(s);
    let s2 = skip_ws(s1.skip(1));
    let a = pragma_args(s2.skip(1));
    &&& s1[0].symbol is Word
    &&& s1[0].text() != "hemtt"@ ==> n == p
    &&& s1[0].text() == "hemtt"@ ==> s2[0].symbol is Word && a is Some && n.root == p.root && (
        s2[0].text() == "suppress"@ && suppress_named((a->0).0) is Some && n.flags == p.flags && n.suppress.map() == widened(p.suppress.map(), suppress_named((a->0).0)->0, (a->0).1)
        || s2[0].text() == "flag"@ && flag_named((a->0).0) is Some && n.suppress == p.suppress && n.flags.map() == widened(p.flags.map(), flag_named((a->0).0)->0, (a->0).1))
}
proof fn lits_dir()
    ensures "pragma"@ != "include"@, "pragma"@ != "define"@, "pragma"@ != "undef"@, "pragma"@ != "if"@, "pragma"@ != "ifdef"@, "pragma"@ != "ifndef"@, "pragma"@ != "else"@, "pragma"@ != "endif"@, "suppress"@ != "flag"@
{
    reveal_strlit("if"); reveal_strlit("ifdef"); reveal_strlit("ifndef"); reveal_strlit("else"); reveal_strlit("endif"); reveal_strlit("include"); reveal_strlit("define"); reveal_strlit("undef"); reveal_strlit("pragma"); reveal_strlit("suppress"); reveal_strlit("flag");
    assert("pragma"@[0] == 'p' && "include"@[0] == 'i' && "define"@[0] == 'd' && "undef"@[0] == 'u' && "if"@[0] == 'i' && "ifdef"@[0] == 'i' && "ifndef"@[0] == 'i' && "else"@[0] == 'e' && "endif"@[0] == 'e' && "suppress"@[0] == 's' && "flag"@[0] == 'f');
}
pub open spec fn is_directive(s: Toks) -> bool { s.len() > 1 && s[0].symbol is Directive && s[1].symbol is Word }
//@include inc/preinclude.rs
impl Processor {
    #[verifier::external_body] pub fn walk(&mut self, callsite: Option<&Position>, in_macro: Option<&str>, pragma: &mut Pragma, stream: &mut Stream, buffer: &mut Vec<Output>) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0
        ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest())
    { unimplemented!() }
    /// `file` on the included file (the recursive call)
    #[verifier::external_body] pub fn included(&mut self, from: &Pragma, pragma: &mut Pragma, stream: &mut Stream, buffer: &mut Vec<Output>) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0,
            !old(pragma).root, inherited(from.suppress.map(), old(pragma).suppress.map()), inherited(from.flags.map(), old(pragma).flags.map())
        ensures final(self).wf(), final(self).file_stack == old(self).file_stack
    { unimplemented!() }
    #[verifier::external_body] pub fn directive_define(&mut self, stream: &mut Stream) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
        ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest())
    { unimplemented!() }
    #[verifier::external_body] pub fn directive_undef(&mut self, stream: &mut Stream) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
        ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest())
    { unimplemented!() }
    #[verifier::external_body] pub fn directive_if(&mut self, pragma: &Pragma, command: Arc<Token>, stream: &mut Stream) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
        ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest())
    { unimplemented!() }
    #[verifier::external_body] pub fn directive_ifdef(&mut self, command: Arc<Token>, outcome: bool, stream: &mut Stream) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
        ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest())
    { unimplemented!() }
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn read_pragma
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub (?s)stream\s*\.peek\(\)\s*\.(?:is_none_or\(|map_or\(true, )\|t\| t\.symbol\(\)\.is_newline\(\) \|\| t\.symbol\(\)\.is_eoi\(\)\) ==> at_line_end(stream.peek())
//@sub "line"\.to_string\(\) ==> string_of("line")
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()),
        r is Ok <==> pragma_args(old(stream).rest()) is Some,
        r is Ok ==> ((r->Ok_0).0.text(), (r->Ok_0).1) == pragma_args(old(stream).rest())->0,
//@entry
    broadcast use group_ended, ax_text;
    proof { lits(); }
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_command
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub (self\.next_word\(stream, None\)\?\.to_string\(\)) != ==> \1.as_str() !=
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 1, old(stream).rest()[0].symbol is Word
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()),
        r is Ok && active(old(self).v()) && old(stream).rest()[0].text() == "pragma"@ ==> pragma_step(*old(pragma), old(stream).rest().skip(1), *final(pragma)),
        r is Err || !active(old(self).v()) || old(stream).rest()[0].text() != "pragma"@ ==> *final(pragma) == *old(pragma),
//@entry
    broadcast use group_ended;
    proof { lits_dir(); }
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()),
        r is Ok ==> r->Ok_0 == is_directive(old(stream).rest()),
        !is_directive(old(stream).rest()) ==> final(self).v() == old(self).v(),
        is_directive(old(stream).rest()) && r is Ok && active(old(self).v()) && old(stream).rest()[1].text() == "pragma"@ ==> pragma_step(*old(pragma), old(stream).rest().skip(2), *final(pragma)),
        !is_directive(old(stream).rest()) || r is Err || !active(old(self).v()) || old(stream).rest()[1].text() != "pragma"@ ==> *final(pragma) == *old(pragma),
//@entry
    broadcast use group_ended;
    proof { assert(stream.rest().len() >= 2 ==> stream.rest().skip(1).skip(1) =~= stream.rest().skip(2)); }
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn line
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0, !(old(stream).rest()[0].symbol is Eoi)
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()),
        // a pragma line takes effect and is not dropped by its own line
        r is Ok && active(old(self).v()) && is_directive(skip_ws(old(stream).rest())) && skip_ws(old(stream).rest())[1].text() == "pragma"@ ==> pragma_step(*old(pragma), skip_ws(old(stream).rest()).skip(2), *final(pragma)),
        // other directives leave the pragmas alone
        r is Ok && is_directive(skip_ws(old(stream).rest())) && (!active(old(self).v()) || skip_ws(old(stream).rest())[1].text() != "pragma"@) ==> *final(pragma) == *old(pragma),
        // nothing of line scope is left after the line
        r is Ok && !is_directive(skip_ws(old(stream).rest())) ==> no_line(*final(pragma)),
        // an inactive line only ends the line scope
        r is Ok && !is_directive(skip_ws(old(stream).rest())) && !active(old(self).v()) ==> after_line(old(pragma).suppress.map(), final(pragma).suppress.map()) && after_line(old(pragma).flags.map(), final(pragma).flags.map()),
//@entry
    broadcast use group_ended;
//@end
}
}
fn main(){}
