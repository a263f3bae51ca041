#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/fmt.rs
//@include inc/symbols.rs assumed
// ---------------------------------------------------------------- assumed contracts
#[verifier::external_body] pub struct Macros { x: int }
#[verifier::external_body] pub struct Codes { x: int }
#[verifier::external_body] pub struct LineOffsets { x: int }
/// `.entry(path).or_default().insert(line, offset)`
#[verifier::external_body] pub fn note_line(m: &mut LineOffsets, path: WorkspacePath, line: usize, offset: usize) { unimplemented!() }
pub type Sources = Vec<(WorkspacePath, String)>;
/// `.iter().position(|(s, _)| ..)`: the first entry of this file
#[verifier::external_body] pub fn position_of(v: &Sources, p: &WorkspacePath) -> (r: Option<usize>)
    ensures r is Some ==> r->0 < v@.len() && v@[r->0 as int].0.text() == p.text()
{ unimplemented!() }
#[verifier::external_body] pub fn arc_clone<T>(a: &Arc<T>) -> (r: Arc<T>) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn char_width(c: char) -> (r: usize) ensures r == width(c) { unimplemented!() }
#[verifier::external_body] pub fn chars_of(s: &String) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn count_chars(s: &String) -> (r: usize) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body] pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c), final(s)@.len() <= isize::MAX { unimplemented!() }
#[verifier::external_body] pub fn push_text(s: &mut String, t: &String) ensures final(s)@ == old(s)@ + t@, final(s)@.len() <= isize::MAX { unimplemented!() }
#[verifier::external_body] pub fn empty_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn same_text(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
/// `&s[a..b]` by bytes: panics unless both are character boundaries; `i` and `j` are those characters
#[verifier::external_body] pub fn cut(s: &String, a: usize, b: usize, i: Ghost<int>, j: Ghost<int>) -> (r: Arc<str>)
    requires 0 <= i@ <= j@ <= s@.len(), blen(s@.take(i@)) == a, blen(s@.take(j@)) == b
    ensures r@ == s@.subrange(i@, j@)
{ unimplemented!() }
#[verifier::external_body] pub fn cut_from(s: &String, a: usize, i: Ghost<int>) -> (r: Arc<str>)
    requires 0 <= i@ <= s@.len(), blen(s@.take(i@)) == a
    ensures r@ == s@.skip(i@)
{ unimplemented!() }
#[verifier::external_body] pub fn no_text() -> (r: Arc<str>) ensures r@ == Seq::<char>::empty() { unimplemented!() }

//@extract libs/workspace/src/reporting/output.rs | enum Output
//@sub Vec<Self> ==> Vec<Output>
//@pub
//@end
// ---------------------------------------------------------------- what the output consists of
/// One character of output: where it comes from, whether a macro made it, and its place in its token otherwise.
pub struct Cell { pub ch: char, pub from: Position, pub made: bool, pub k: int }
/// the open quotes after a token
pub open spec fn quotes(st: Seq<char>, t: Token) -> Seq<char> {
    if t.symbol is DoubleQuote { if st.len() > 0 && st.last() == '"' { st.drop_last() } else { st.push('"') } }
    else if t.symbol is SingleQuote { if st.len() > 0 && st.last() == '\'' && t.source.start.0 != t.source.end.0 { st.drop_last() } else { st.push('\'') } }
    else { st }
}
/// the text a token adds: a join outside of quotes adds nothing
pub open spec fn added(st: Seq<char>, t: Token) -> Seq<char> {
    if t.symbol is Newline { seq!['\n'] } else if t.text() == "##"@ && quotes(st, t).len() == 0 { Seq::empty() } else { t.text() }
}
pub open spec fn tok(a: Arc<Token>) -> Token { *a }
pub open spec fn direct(st: Seq<char>, t: Token) -> Seq<Cell> { Seq::new(added(st, t).len(), |k: int| Cell { ch: added(st, t)[k], from: t.source, made: false, k }) }
pub open spec fn remade(c: Seq<Cell>, from: Position) -> Seq<Cell> { Seq::new(c.len(), |k: int| Cell { ch: c[k].ch, from, made: true, k: 0 }) }
/// The output of the first n pieces, the quotes st being open before.
pub open spec fn cells(o: Vec<Output>, n: nat, st: Seq<char>) -> Seq<Cell>
    decreases o, n
{ if n == 0 || n > o.len() { Seq::empty() } else { cells(o, (n - 1) as nat, st) + piece(o[n - 1], open(o, (n - 1) as nat, st)) } }
pub open spec fn piece(o: Output, st: Seq<char>) -> Seq<Cell>
    decreases o
{ match o { Output::Direct(t) => direct(st, *t), Output::Macro(root, v) => remade(cells(v, v.len() as nat, st), root.source) } }
/// the open quotes after the first n pieces
pub open spec fn open(o: Vec<Output>, n: nat, st: Seq<char>) -> Seq<char>
    decreases o, n
{ if n == 0 || n > o.len() { st } else { open_piece(o[n - 1], open(o, (n - 1) as nat, st)) } }
pub open spec fn open_piece(o: Output, st: Seq<char>) -> Seq<char>
    decreases o
{ match o { Output::Direct(t) => quotes(st, *t), Output::Macro(root, v) => open(v, v.len() as nat, st) } }
/// Lines are counted from 1.
pub open spec fn lines_ok(o: Vec<Output>, n: nat) -> bool
    decreases o, n
{ n == 0 || n > o.len() || (lines_ok(o, (n - 1) as nat) && line_ok(o[n - 1])) }
pub open spec fn line_ok(o: Output) -> bool
    decreases o
{ match o { Output::Direct(t) => t.symbol is Newline ==> (t.source.end.1).0 >= 1, Output::Macro(root, v) => lines_ok(v, v.len() as nat) } }
pub open spec fn letters(c: Seq<Cell>) -> Seq<char> { Seq::new(c.len(), |k: int| c[k].ch) }

// ---------------------------------------------------------------- the record of origins
//@extract libs/workspace/src/reporting/processed.rs | struct Mapping
//@pub
//@end
//@extract libs/workspace/src/reporting/processed.rs | struct Processed
//@sub line_offsets: HashMap<WorkspacePath, HashMap<usize, usize>> ==> line_offsets: LineOffsets
//@sub macros: HashMap<String, Vec<Position>> ==> macros: Macros
//@sub usage: HashMap<Position, Vec<Position>>, ==>
//@pub
//@end
impl Mapping {
    pub open spec fn from(&self) -> int { (self.processed.0).0 as int }
    pub open spec fn to(&self) -> int { (self.processed.1).0 as int }
    pub open spec fn covers(&self, i: int) -> bool { self.from() <= i < self.to() }
    /// it says of character i what c says
    pub open spec fn tells(&self, i: int, c: Cell) -> bool { self.original == c.from && self.was_macro == c.made && (!c.made ==> i - self.from() == c.k && c.k < self.token.text().len() && c.ch == self.token.text()[c.k]) }
}
/// The record that counts for character i: the last one that covers it.
pub open spec fn found(m: Seq<Mapping>, i: int) -> Option<Mapping>
    decreases m.len()
{ if m.len() == 0 { None } else if m.last().covers(i) { Some(m.last()) } else { found(m.drop_last(), i) } }
pub proof fn lemma_push(m: Seq<Mapping>, x: Mapping, i: int)
    ensures found(m.push(x), i) == if x.covers(i) { Some(x) } else { found(m, i) }
{ assert(m.push(x).drop_last() =~= m); }
/// The record from character `base` on says what c says.
pub open spec fn told(m: Seq<Mapping>, base: int, c: Seq<Cell>) -> bool { forall|i: int| base <= i < base + c.len() ==> (#[trigger] found(m, i)) is Some && found(m, i)->0.tells(i, c[i - base]) }
pub open spec fn kept(a: Seq<Mapping>, b: Seq<Mapping>, base: int) -> bool { forall|i: int| i < base ==> (#[trigger] found(b, i)) == found(a, i) }
impl Processed {
    pub open spec fn counted(&self) -> bool { self.total == self.output@.len() && self.line <= self.total && self.col <= self.total }
    /// every record names the file it is about
    pub open spec fn filed(&self) -> bool { forall|j: int| 0 <= j < self.mappings@.len() ==> (#[trigger] self.mappings@[j]).source < self.sources@.len() && self.sources@[self.mappings@[j].source as int].0.text() == self.mappings@[j].original.path.text() }
    /// #[derive(Default)]
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.output@ == Seq::<char>::empty(), r.mappings@ == Seq::<Mapping>::empty(), r.sources@.len() == 0, r.line == 0, r.col == 0, r.total == 0 { unimplemented!() }
}
/// what is appended
pub open spec fn appended(a: Processed, b: Processed, c: Seq<Cell>) -> bool {
    &&& b.counted() &&& b.filed()
    &&& b.output@ == a.output@ + letters(c)
    &&& told(b.mappings@, a.total as int, c)
    &&& kept(a.mappings@, b.mappings@, a.total as int)
    &&& b.sources@.len() >= a.sources@.len() && b.sources@.take(a.sources@.len() as int) == a.sources@
}
proof fn lemma_direct(a: Processed, b: Processed, m: Mapping, st: Seq<char>, t: Token)
    requires a.counted(), b.counted(), b.mappings@ == a.mappings@.push(m), m.original == t.source, *m.token == t, !m.was_macro, m.from() == a.total, m.to() >= a.total + added(st, t).len(),
        t.symbol is Newline ==> t.text() == seq!['\n'], added(st, t) == t.text(), b.output@ == a.output@ + added(st, t)
    ensures told(b.mappings@, a.total as int, direct(st, t)), kept(a.mappings@, b.mappings@, a.total as int), letters(direct(st, t)) == added(st, t)
{
    assert(letters(direct(st, t)) =~= added(st, t));
    assert forall|i: int| i < a.total implies (#[trigger] found(b.mappings@, i)) == found(a.mappings@, i) by { lemma_push(a.mappings@, m, i); }
    assert forall|i: int| a.total <= i < a.total + direct(st, t).len() implies (#[trigger] found(b.mappings@, i)) is Some && found(b.mappings@, i)->0.tells(i, direct(st, t)[i - a.total]) by { lemma_push(a.mappings@, m, i); }
}
//@extract libs/workspace/src/reporting/processed.rs | fn append_token
//@sub (?s)processed\s*\.sources\s*\.iter\(\)\s*\.position\(\|\(s, _\)\| s == &path\)\s*\.map_or_else\(\s*\|\| \{(.*?)Ok::<usize, Error>\((.*?)\)\s*\},\s*Ok,\s*\)\? ==> match position_of(&processed.sources, &path) { None => {\1 \2 } Some(i) => i }
//@sub string_stack\.last\(\)\.expect\("[^"]*"\) == &('..?') ==> string_stack[string_stack.len() - 1] == \1
//@sub (?s)processed\.line_offsets\.entry\(path\)\.or_default\(\)\.insert\( ==> note_line(&mut processed.line_offsets, path,
//@sub (?s)processed\.mappings\.push\((Mapping \{.*?\n\s*\})\); ==> let made = \1; let ghost m = made; processed.mappings.push(made);
//@sub processed\.mappings\.push\(made\); ==> processed.mappings.push(made); proof { assert(processed.mappings@.drop_last() =~= was.mappings@); lemma_direct(*old(processed), *processed, m, old(string_stack)@, tok(m.token)); }
//@sub processed\.output\.push\(([^()]*)\) ==> push_char(&mut processed.output, \1)
//@sub processed\.output\.push_str\(&(\w+)\) ==> push_text(&mut processed.output, &\1)
//@sub str\.is_empty\(\) ==> empty_text(&str)
//@sub str == "##" ==> same_text(&str, "##")
//@sub str\.chars\(\)\.count\(\) ==> count_chars(&str)
//@spec
    requires old(processed).counted(), old(processed).filed(), line_ok(Output::Direct(token))
    ensures r is Ok ==> appended(*old(processed), *final(processed), direct(old(string_stack)@, *token)) && final(string_stack)@ == quotes(old(string_stack)@, *token)
//@entry
    broadcast use ax_fits;
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
//@before if token\.symbol\(\)\.is_double_quote\(\)
    let ghost was = *processed; let ghost t0 = tok(token);
    proof {
        assert(letters(Seq::empty()) =~= Seq::empty());
        assert(was.output@ =~= old(processed).output@ + letters(Seq::empty()));
        assert(was.sources@.take(old(processed).sources@.len() as int) =~= old(processed).sources@);
        if added(old(string_stack)@, t0).len() == 0 { assert(direct(old(string_stack)@, t0) =~= Seq::empty()); }
    }
//@before if token\.symbol\(\)\.is_newline\(\)
    assert(string_stack@ == quotes(old(string_stack)@, t0));
//@end
proof fn lemma_lines(o: Vec<Output>, n: nat, i: int)
    requires lines_ok(o, n), 0 <= i < n <= o.len()
    ensures line_ok(o[i])
    decreases n
{ if i < n - 1 { lemma_lines(o, (n - 1) as nat, i); } }
proof fn lemma_chain(a: Processed, b: Processed, d: Processed, c: Seq<Cell>, e: Seq<Cell>)
    requires a.counted(), appended(a, b, c), appended(b, d, e)
    ensures appended(a, d, c + e)
{
    assert(letters(c + e) =~= letters(c) + letters(e));
    assert(d.output@ =~= a.output@ + letters(c + e));
    assert(b.total == a.total + c.len());
    assert forall|i: int| i < a.total implies (#[trigger] found(d.mappings@, i)) == found(a.mappings@, i) by { assert(found(d.mappings@, i) == found(b.mappings@, i)); }
    assert forall|i: int| a.total <= i < a.total + (c + e).len() implies (#[trigger] found(d.mappings@, i)) is Some && found(d.mappings@, i)->0.tells(i, (c + e)[i - a.total]) by {
        if i < b.total { assert(found(d.mappings@, i) == found(b.mappings@, i)); assert((c + e)[i - a.total] == c[i - a.total]); }
        else { assert((c + e)[i - a.total] == e[i - b.total]); }
    }
    assert(d.sources@.take(a.sources@.len() as int) =~= d.sources@.take(b.sources@.len() as int).take(a.sources@.len() as int));
}
proof fn lemma_macro(a: Processed, b: Processed, d: Processed, c: Seq<Cell>, m: Mapping, root: Token)
    requires a.counted(), appended(a, b, c), d.counted(), d.filed(), d.output@ == b.output@, d.mappings@ == b.mappings@.push(m), m.from() == a.total, m.to() == b.total, m.original == root.source, m.was_macro,
        d.sources@.len() >= b.sources@.len(), d.sources@.take(b.sources@.len() as int) == b.sources@
    ensures appended(a, d, remade(c, root.source))
{
    let e = remade(c, root.source);
    assert(letters(e) =~= letters(c));
    assert(b.total == a.total + c.len());
    assert forall|i: int| i < a.total implies (#[trigger] found(d.mappings@, i)) == found(a.mappings@, i) by { lemma_push(b.mappings@, m, i); assert(found(b.mappings@, i) == found(a.mappings@, i)); }
    assert forall|i: int| a.total <= i < a.total + e.len() implies (#[trigger] found(d.mappings@, i)) is Some && found(d.mappings@, i)->0.tells(i, e[i - a.total]) by { lemma_push(b.mappings@, m, i); }
    assert(d.sources@.take(a.sources@.len() as int) =~= d.sources@.take(b.sources@.len() as int).take(a.sources@.len() as int));
}
//@extract libs/workspace/src/reporting/processed.rs | fn append_output
//@sub output: Vec<Output> ==> output: &Vec<Output>
//@sub for o in output \{ ==> for o in output.iter() {
//@sub append_token\(processed, string_stack, t\) ==> append_token(processed, string_stack, arc_clone(t))
//@sub (?s)processed\s*\.sources\s*\.iter\(\)\s*\.position\(\|\(s, _\)\| s\.as_str\(\) == path\.as_str\(\)\)\s*\.map_or_else\(\s*\|\| \{(.*?)path\.read_to_string\(\)\.expect\("[^"]*"\)(.*?)\n(\s*processed\.sources\.len\(\) - 1)\s*\},\s*\|i\| i,\s*\) ==> match position_of(&processed.sources, &path) { None => {\1 path.read_again() \2 \3 } Some(i) => i }
//@sub (?s)processed\.mappings\.push\((Mapping \{.*?\n\s*\})\); ==> let made = \1; let ghost m = made; processed.mappings.push(made); proof { assert(processed.sources@.take(mid.sources@.len() as int) =~= mid.sources@); lemma_macro(then, mid, *processed, cells(*o, o.len() as nat, st), m, tok(*root)); }
//@sub let path = root\.position ==> let ghost mid = *processed; let path = root.position
//@sub token: root ==> token: arc_clone(root)
//@spec
    requires old(processed).counted(), old(processed).filed(), lines_ok(*output, output.len() as nat)
    ensures r is Ok ==> appended(*old(processed), *final(processed), cells(*output, output.len() as nat, old(string_stack)@)) && final(string_stack)@ == open(*output, output.len() as nat, old(string_stack)@)
    decreases *output
//@entry
    broadcast use ax_fits;
//@index 0
//@loopinit 0
    proof {
        assert(letters(Seq::empty()) =~= Seq::empty()); assert(processed.output@ =~= old(processed).output@ + letters(Seq::empty()));
        assert(processed.sources@.take(old(processed).sources@.len() as int) =~= old(processed).sources@);
    }
//@loopstart 0
    let ghost then = *processed; let ghost st = string_stack@;
    proof { lemma_lines(*output, output.len() as nat, ix0 - 1); }
//@loopend 0
    proof { assert(open_piece(output[ix0 - 1], st) == string_stack@); lemma_chain(*old(processed), then, *processed, cells(*output, (ix0 - 1) as nat, old(string_stack)@), piece(output[ix0 - 1], st)); }
//@loop 0 for
    invariant vs0 == output, 0 <= ix0 <= vs0@.len(), old(processed).counted(), lines_ok(*output, output.len() as nat),
        appended(*old(processed), *processed, cells(*output, ix0 as nat, old(string_stack)@)), string_stack@ == open(*output, ix0 as nat, old(string_stack)@)
    decreases vs0@.len() - ix0
//@end

// ---------------------------------------------------------------- asking
/// `.iter().filter(..).collect()`: the elements of which the closure says yes, in order
pub open spec fn covering(m: Seq<Mapping>, i: int) -> Seq<Mapping>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else if m.last().covers(i) { covering(m.drop_last(), i).push(m.last()) } else { covering(m.drop_last(), i) } }
pub open spec fn meant(v: Seq<&Mapping>) -> Seq<Mapping> { Seq::new(v.len(), |k: int| *v[k]) }
/// `.iter().filter(f).collect()`: f has to say yes exactly of the records covering `i`
#[verifier::external_body] pub fn those<'a, F: Fn(&&Mapping) -> bool>(v: &'a Vec<Mapping>, f: F, i: Ghost<int>) -> (r: Vec<&'a Mapping>)
    requires forall|m: &&Mapping| #[trigger] f.requires((m,)), forall|m: &&Mapping, b: bool| f.ensures((m,), b) ==> b == (**m).covers(i@)
    ensures meant(r@) == covering(v@, i@)
{ unimplemented!() }
#[verifier::external_body] pub fn last_of<'a>(v: Vec<&'a Mapping>) -> (r: Option<&'a Mapping>)
    ensures v@.len() == 0 <==> r is None, r is Some ==> r->0 == v@.last()
{ unimplemented!() }
pub proof fn lemma_covering(m: Seq<Mapping>, i: int)
    ensures covering(m, i).len() > 0 <==> found(m, i) is Some, found(m, i) is Some ==> covering(m, i).last() == found(m, i)->0
    decreases m.len()
{ if m.len() > 0 { lemma_covering(m.drop_last(), i); } }
/// character of the text at which a byte range starts
pub open spec fn head(s: Seq<char>, n: int) -> int { if n <= s.len() { n } else { s.len() as int } }
pub proof fn lemma_grow(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures 0 <= blen(s.take(i)) <= blen(s.take(j))
    decreases j
{ if j > 0 { assert(s.take(j).drop_last() =~= s.take(j - 1)); } if i < j { lemma_grow(s, i, j - 1); } else if i > 0 { lemma_grow(s, i - 1, i - 1); } }
pub proof fn lemma_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures blen(s.take(i + 1)) == blen(s.take(i)) + width(s[i]), 0 <= blen(s.take(i + 1)) <= blen(s)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(s.len() as int) =~= s); lemma_grow(s, i + 1, s.len() as int); }
#[verifier::external_body] pub fn sum_widths(s: &String, n: usize) -> (r: usize) ensures r == blen(s@.take(head(s@, n as int))) { unimplemented!() }
impl Mapping {
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn source
//@spec
    ensures r == self.source
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn processed_start
//@spec
    ensures r.0 as int == self.from()
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn processed_end
//@spec
    ensures r.0 as int == self.to()
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn original_start
//@spec
    ensures r == self.original.start.0
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn original_end
//@spec
    ensures r == self.original.end.0
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn original
//@spec
    ensures *r == self.original
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn token
//@spec
    ensures *r == self.token
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Mapping @ fn was_macro
//@spec
    ensures r == self.was_macro
//@end
}
/// Of every character of the output the record says where it comes from.
pub open spec fn records(p: Processed, c: Seq<Cell>) -> bool {
    &&& p.output@ == letters(c)
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] found(p.mappings@, i)) is Some && found(p.mappings@, i)->0.tells(i, c[i])
    &&& p.filed()
}
impl Processed {
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn new
//@sub output: Vec<Output> ==> output: &Vec<Output>
//@sub macros: HashMap<String, Vec<Position>> ==> macros: Macros
//@sub (?s)let mut processed = Self \{(.*)\.\.Default::default\(\)\n\s*\} ==> let base = Processed::default(); let mut processed = Processed {\1 ..base }
//@sub (?:usage: HashMap<Position, Vec<Position>>|usage), ==>
//@spec
    requires lines_ok(*output, output.len() as nat)
    ensures r is Ok ==> records(r->Ok_0, cells(*output, output.len() as nat, Seq::empty()))
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn as_str
//@spec
    ensures r@ == self.output@
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn mappings
//@sub (?s)self\.mappings\s*\.iter\(\)\s*\.filter\(\|map\| \{(.*?)\}\)\s*\.collect\(\) ==> those(&self.mappings, |map: &&Mapping| -> (b: bool) ensures b == map.covers(offset as int) {\1}, Ghost(offset as int))
//@spec
    ensures meant(r@) == covering(self.mappings@, offset as int)
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn mapping
//@sub self\.mappings\(offset\)\.last\(\)\.copied\(\) ==> last_of(self.mappings(offset))
//@spec
    ensures r is Some <==> found(self.mappings@, offset as int) is Some, r is Some ==> *r->0 == found(self.mappings@, offset as int)->0
//@entry
    proof { lemma_covering(self.mappings@, offset as int); }
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn raw_mappings
//@spec
    ensures r@ == self.mappings@
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn source
//@sub self\.sources\.get\(index\) ==> get_source(&self.sources, index)
//@spec
    ensures r is Some <==> index < self.sources@.len(), r is Some ==> *r->0 == self.sources@[index as int]
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn get_byte_offset
//@sub self\.output\.chars\(\)\.take\(offset\)\.map\(char::len_utf8\)\.sum\(\) ==> sum_widths(&self.output, offset)
//@spec
    ensures blen(self.output@.take(head(self.output@, offset as int))) <= u32::MAX ==> r == blen(self.output@.take(head(self.output@, offset as int)))
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn extract
//@sub Arc::from\(""\) ==> no_text()
//@sub span: Range<usize> ==> span: std::ops::Range<usize>
//@sub (?s)self\.output\.chars\(\)\.enumerate\(\)\.for_each\(\|\((\w+), (\w+)\)\| \{(.*?)\n        \}\); ==> for (\1, \2) in seq(chars_of(&self.output)).enumerate() {\3 }
//@sub c\.len_utf8\(\) ==> char_width(c)
//@sub Arc::from\(&self\.output\[real_start\.\.real_end\]\) ==> cut(&self.output, real_start, real_end, Ghost(head(self.output@, span.start as int)), Ghost(head(self.output@, span.end as int)))
//@spec
    requires span.start <= span.end
    ensures r@ == self.output@.subrange(head(self.output@, span.start as int), head(self.output@, span.end as int))
//@entry
    broadcast use ax_fits;
    proof { assert(self.output@.subrange(head(self.output@, span.start as int), head(self.output@, span.start as int)) =~= Seq::empty()); }
//@index 0
//@loopinit 0
    proof { assert(self.output@.take(0) =~= Seq::empty()); assert(self.output@.len() <= isize::MAX); }
//@loopstart 0
    proof { lemma_step(self.output@, ix0 - 1); }
//@loop 0 for
    invariant vs0@ == self.output@, 0 <= ix0 <= vs0@.len(), blen(self.output@) <= isize::MAX,
        real_start == blen(self.output@.take(if ix0 <= span.start { ix0 as int } else { span.start as int })),
        real_end == blen(self.output@.take(if ix0 <= span.end { ix0 as int } else { span.end as int }))
    decreases vs0@.len() - ix0
//@end
//@extract libs/workspace/src/reporting/processed.rs | impl Processed @ fn extract_from
//@sub from: RangeFrom<usize> ==> from: std::ops::RangeFrom<usize>
//@sub (?s)self\.output\.chars\(\)\.enumerate\(\)\.for_each\(\|\((\w+), (\w+)\)\| \{(.*?)\n        \}\); ==> for (\1, \2) in seq(chars_of(&self.output)).enumerate() {\3 }
//@sub c\.len_utf8\(\) ==> char_width(c)
//@sub Arc::from\(&self\.output\[real_start\.\.\]\) ==> cut_from(&self.output, real_start, Ghost(head(self.output@, from.start as int)))
//@spec
    ensures r@ == self.output@.skip(head(self.output@, from.start as int))
//@entry
    broadcast use ax_fits;
//@index 0
//@loopinit 0
    proof { assert(self.output@.take(0) =~= Seq::empty()); assert(self.output@.len() <= isize::MAX); }
//@loopstart 0
    proof { lemma_step(self.output@, ix0 - 1); }
//@loop 0 for
    invariant vs0@ == self.output@, 0 <= ix0 <= vs0@.len(), blen(self.output@) <= isize::MAX,
        real_start == blen(self.output@.take(if ix0 <= from.start { ix0 as int } else { from.start as int }))
    decreases vs0@.len() - ix0
//@end
}
#[verifier::external_body] pub fn get_source(v: &Sources, i: usize) -> (r: Option<&(WorkspacePath, String)>) ensures r is Some <==> i < v@.len(), r is Some ==> *r->0 == v@[i as int] { unimplemented!() }
fn main() {}
}
