#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/fmt.rs
//@include inc/symbols.rs
// ---------------------------------------------------------------- what pest hands over (assumed: config.pest)
#[derive(Clone, Copy)] #[allow(non_camel_case_types)]
pub enum Rule { EOI, file, word, alpha, digit, underscore, left_parentheses, right_parentheses, join, directive, comma, escape, double_quote, single_quote, left_angle, right_angle, equals, unicode, newline, space, tab, WHITESPACE, COMMENT }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Pair<'a> { x: &'a str }
impl<'a> Pair<'a> {
    pub uninterp spec fn rule(&self) -> Rule;
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn inner(&self) -> Pair<'a>;
    #[verifier::external_body] pub fn as_rule(&self) -> (r: Rule) ensures r == self.rule() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.text() { unimplemented!() }
    /// a blank is a space or a tab
    #[verifier::external_body] pub fn first_inner(self) -> (r: Pair<'a>) requires self.rule() is WHITESPACE ensures r == self.inner() { unimplemented!() }
    /// the text a rule of the grammar matches
    pub open spec fn valid(&self) -> bool {
        match self.rule() {
            Rule::alpha => self.text().len() == 1,
            Rule::digit => self.text().len() == 1 && '0' <= self.text()[0] && self.text()[0] <= '9',
            Rule::underscore => self.text() == "_"@, Rule::left_parentheses => self.text() == "("@, Rule::right_parentheses => self.text() == ")"@,
            Rule::join => self.text() == "##"@, Rule::directive => self.text() == "#"@, Rule::comma => self.text() == ","@, Rule::escape => self.text() == "\\"@,
            Rule::double_quote => self.text() == "\""@, Rule::single_quote => self.text() == "'"@, Rule::left_angle => self.text() == "<"@, Rule::right_angle => self.text() == ">"@,
            Rule::equals => self.text() == "="@, Rule::newline => self.text() == "\n"@, Rule::space => self.text() == " "@, Rule::tab => self.text() == "\t"@,
            Rule::WHITESPACE => (self.inner().rule() is space && self.text() == " "@ && self.inner().text() == " "@) || (self.inner().rule() is tab && self.text() == "\t"@ && self.inner().text() == "\t"@),
            Rule::EOI => self.text().len() == 0,
            Rule::file => false,
            Rule::word => true, Rule::unicode => true, Rule::COMMENT => true,
        }
    }
}
pub open spec fn joined(p: Seq<Pair>) -> Seq<char>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { joined(p.drop_last()) + p.last().text() } }
/// Line breaks are pieces of their own or within a comment.
pub open spec fn breaks_ok(p: Pair) -> bool { p.rule() is newline || p.rule() is COMMENT || !p.text().contains('\n') }
pub uninterp spec fn pieces<'a>(s: Seq<char>) -> Seq<Pair<'a>>;
#[verifier::external_body] pub fn pairs_of<'a>(s: &'a String, path: &WorkspacePath) -> (r: Result<Vec<Pair<'a>>, Error>)
    ensures r is Ok ==> (r->Ok_0)@ == pieces(s@), r is Ok && !s@.contains('\r') ==> joined((r->Ok_0)@) == s@ && forall|i: int| 0 <= i < (r->Ok_0)@.len() ==> (#[trigger] (r->Ok_0)@[i]).valid() && breaks_ok((r->Ok_0)@[i])
{ unimplemented!() }

// ---------------------------------------------------------------- text helpers (assumed contracts of std)
pub open spec fn nls(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { nls(s.drop_last()) + if s.last() == '\n' { 1nat } else { 0nat } } }
#[verifier::external_body] pub fn byte_len(s: &str) -> (r: usize) ensures r == blen(s@) { unimplemented!() }
#[verifier::external_body] pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn str_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn first_char(s: &str) -> (r: Option<char>) ensures r is Some <==> s@.len() > 0, r is Some ==> r->0 == s@[0] { unimplemented!() }
/// `s.matches('\n').count()`
#[verifier::external_body] pub fn count_breaks(s: &str) -> (r: usize) ensures r == nls(s@) { unimplemented!() }
/// `s.split('\n').collect()`
#[verifier::external_body] pub fn split_breaks<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() == nls(s@) + 1, blen((r@.last())@) + nls(s@) <= blen(s@)
{ unimplemented!() }
/// `s.parse::<usize>()` of one decimal digit
#[verifier::external_body] pub fn parse_digit(s: &str) -> (r: Option<usize>)
    ensures s@.len() == 1 && '0' <= s@[0] && s@[0] <= '9' ==> r is Some && r->0 == s@[0] as int - '0' as int
{ unimplemented!() }
pub proof fn lemma_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b), nls(a + b) == nls(a) + nls(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_bounds(a: Seq<char>)
    ensures 0 <= nls(a) <= blen(a), a.len() <= blen(a)
    decreases a.len()
{ if a.len() > 0 { lemma_bounds(a.drop_last()); } }
pub proof fn lemma_no_break(a: Seq<char>)
    requires !a.contains('\n')
    ensures nls(a) == 0
    decreases a.len()
{ if a.len() > 0 { assert(a.contains(a.last())); assert forall|c: char| a.drop_last().contains(c) implies a.contains(c) by { let i = choose|i: int| 0 <= i < a.len() - 1 && a.drop_last()[i] == c; assert(a[i] == c); } lemma_no_break(a.drop_last()); } }

// ---------------------------------------------------------------- where a token is
/// It stands at character n of the source.
pub open spec fn stands(t: Token, src: Seq<char>, n: int) -> bool {
    &&& 0 <= n && n + t.text().len() <= src.len() && src.subrange(n, n + t.text().len()) == t.text()
    &&& t.source.start.0 == blen(src.take(n)) && (t.source.start.1).0 == 1 + nls(src.take(n))
    &&& t.text().len() > 0 ==> t.source.end.0 == blen(src.take(n + t.text().len())) && (t.source.end.1).0 == 1 + nls(src.take(n + t.text().len()))
    &&& (t.source.end.1).0 >= 1
}
pub open spec fn traced(t: Token, src: Seq<char>, path: WorkspacePath) -> bool { t.source.path == path && exists|n: int| #[trigger] stands(t, src, n) }
pub open spec fn tok(a: Arc<Token>) -> Token { *a }
/// What is read of the source: everything but comments, which begin outside of quotes.
pub struct Seen { pub single: bool, pub double: bool, pub skip: bool, pub text: Seq<char> }
pub open spec fn next(s: Seen, p: Pair) -> Seen {
    let t = p.text(); let q = p.rule();
    if q is newline { Seen { skip: false, text: s.text + t, ..s } }
    else if q is COMMENT && !(s.single || s.double) { Seen { skip: s.skip || t == "//"@, ..s } }
    else if s.skip { s }
    else if q is single_quote && !s.double { Seen { single: !s.single, text: s.text + t, ..s } }
    else if q is double_quote && !s.single { Seen { double: !s.double, text: s.text + t, ..s } }
    else { Seen { text: s.text + t, ..s } }
}
pub open spec fn seen(p: Seq<Pair>) -> Seen
    decreases p.len()
{ if p.len() == 0 { Seen { single: false, double: false, skip: false, text: Seq::empty() } } else { next(seen(p.drop_last()), p.last()) } }
pub open spec fn texts(v: Seq<Arc<Token>>) -> Seq<char>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { texts(v.drop_last()) + tok(v.last()).text() } }
pub proof fn lemma_texts(v: Seq<Arc<Token>>, t: Arc<Token>)
    ensures texts(v.push(t)) == texts(v) + tok(t).text(), tok(t).text().len() == 0 ==> texts(v.push(t)) == texts(v)
{ assert(v.push(t).drop_last() =~= v); if tok(t).text().len() == 0 { assert(texts(v) + tok(t).text() =~= texts(v)); } }
pub proof fn lemma_seen(p: Seq<Pair>)
    ensures seen(p).skip ==> !seen(p).single && !seen(p).double
    decreases p.len()
{ if p.len() > 0 { lemma_seen(p.drop_last()); } }
pub proof fn lemma_joined(p: Seq<Pair>, n: int)
    requires 0 <= n <= p.len()
    ensures joined(p.take(n)).len() <= joined(p).len(), joined(p).take(joined(p.take(n)).len() as int) == joined(p.take(n))
    decreases p.len() - n
{
    if n == p.len() { assert(p.take(n) =~= p); assert(joined(p).take(joined(p).len() as int) =~= joined(p)); }
    else {
        lemma_joined(p, n + 1);
        assert(p.take(n + 1).drop_last() =~= p.take(n));
        let a = joined(p.take(n)); let b = joined(p.take(n + 1));
        assert(b == a + p[n].text());
        assert(joined(p).take(a.len() as int) =~= joined(p).take(b.len() as int).take(a.len() as int));
        assert(b.take(a.len() as int) =~= a);
    }
}
/// what the next piece adds
pub proof fn lemma_piece(ps: Seq<Pair>, i: int)
    requires 0 <= i < ps.len(), ps[i].valid(), breaks_ok(ps[i])
    ensures ({
        let pre = joined(ps.take(i)); let t = ps[i].text(); let all = joined(ps.take(i + 1));
        &&& seen(ps.take(i + 1)) == next(seen(ps.take(i)), ps[i]) && (seen(ps.take(i)).skip ==> !seen(ps.take(i)).single && !seen(ps.take(i)).double)
        &&& all == pre + t && all.len() <= joined(ps).len() && all == joined(ps).take(all.len() as int)
        &&& blen(all) == blen(pre) + blen(t) && nls(all) == nls(pre) + nls(t) && 0 <= nls(pre) <= blen(pre) && 0 <= nls(t) <= blen(t) && blen(all) <= blen(joined(ps))
        &&& !(ps[i].rule() is COMMENT) ==> nls(t) == if ps[i].rule() is newline { 1nat } else { 0nat }
        &&& ps[i].rule() is single_quote || ps[i].rule() is double_quote ==> blen(t) >= 1
    })
{
    let p = ps.take(i + 1); let pre = joined(ps.take(i)); let t = ps[i].text(); let src = joined(ps);
    assert(p.drop_last() =~= ps.take(i)); assert(p.last() == ps[i]);
    lemma_joined(ps, i + 1); lemma_joined(ps, i); lemma_seen(p.drop_last());
    lemma_add(pre, t); lemma_bounds(pre); lemma_bounds(t); lemma_bounds(src);
    let n = (pre + t).len() as int;
    lemma_add(src.take(n), src.skip(n)); lemma_bounds(src.skip(n));
    assert(src.take(n) + src.skip(n) =~= src);
    reveal_strlit("\n"); assert("\n"@ =~= Seq::<char>::empty().push('\n')); assert("\n"@.drop_last() =~= Seq::<char>::empty()); assert(nls(Seq::<char>::empty()) == 0); assert(nls("\n"@) == 1);
    reveal_strlit("'"); reveal_strlit("\"");
    if !t.contains('\n') { lemma_no_break(t); }
}
impl Symbol {
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn from_word
//@sub from_word<S: Into<String>>\(word: S\) ==> from_word(word: String)
//@sub word\.into\(\) ==> word
//@spec
    ensures r == Symbol::Word(word)
//@end
//@extract libs/preprocessor/src/parse/mod.rs | impl Parse for Symbol @ fn to_symbol
//@sub pest::iterators::Pair<Rule> ==> Pair<'_>
//@sub (?s)pair\.as_str\(\)\s*\.chars\(\)\s*\.next\(\)\s*\.expect\("[^"]*"\) ==> first_char(pair.as_str()).unwrap()
//@sub (?s)pair\.as_str\(\)\s*\.parse::<usize>\(\)\s*\.expect\("[^"]*"\) ==> parse_digit(pair.as_str()).unwrap()
//@sub (?s)pair\.into_inner\(\)\.next\(\)\.expect\("[^"]*"\) ==> pair.first_inner()
//@sub pair\.as_str\(\)\.to_string\(\) ==> str_string(pair.as_str())
//@spec
    requires pair.valid()
    ensures r is Comment <==> pair.rule() is COMMENT, !(r is Comment) ==> text_of(r) == pair.text(), r is Newline <==> pair.rule() is newline
    decreases if pair.rule() is WHITESPACE { 1nat } else { 0nat }
//@end
}
pub open spec fn all_traced(v: Seq<Arc<Token>>, src: Seq<char>, path: WorkspacePath) -> bool { forall|i: int| 0 <= i < v.len() ==> traced(tok(#[trigger] v[i]), src, path) }
pub proof fn lemma_added(v: Seq<Arc<Token>>, w: Seq<Arc<Token>>, src: Seq<char>, path: WorkspacePath)
    requires all_traced(v, src, path), w.len() == v.len() + 1, w.drop_last() == v, traced(tok(w.last()), src, path)
    ensures all_traced(w, src, path), texts(w) == texts(v) + tok(w.last()).text(), tok(w.last()).text().len() == 0 ==> texts(w) == texts(v)
{ assert forall|i: int| 0 <= i < w.len() implies traced(tok(#[trigger] w[i]), src, path) by { if i < v.len() { assert(w[i] == v[i]); } } lemma_texts(v, w.last()); assert(v.push(w.last()) =~= w); }
pub proof fn lemma_start(ps: Seq<Pair>, v: Seq<Arc<Token>>)
    requires v.len() == 0
    ensures joined(ps.take(0)) == Seq::<char>::empty(), blen(joined(ps.take(0))) == 0, nls(joined(ps.take(0))) == 0, seen(ps.take(0)) == (Seen { single: false, double: false, skip: false, text: Seq::empty() }), texts(v) == Seq::<char>::empty(), forall|src: Seq<char>, p: WorkspacePath| #[trigger] all_traced(v, src, p)
{ assert(ps.take(0) =~= Seq::empty()); }
pub proof fn lemma_stands(t: Token, src: Seq<char>, a: Seq<char>, b: Seq<char>, path: WorkspacePath)
    requires a + b == src.take((a + b).len() as int), (a + b).len() <= src.len(), t.source.path == path, t.source.start.0 == blen(a), (t.source.start.1).0 == 1 + nls(a),
        t.text().len() == 0 || t.text() == b, t.text().len() > 0 ==> t.source.end.0 == blen(a) + blen(b) && (t.source.end.1).0 == 1 + nls(a) + nls(b), (t.source.end.1).0 >= 1
    ensures traced(t, src, path)
{
    let n = a.len() as int;
    lemma_add(a, b);
    assert(src.take(n) =~= src.take((a + b).len() as int).take(n)); assert((a + b).take(n) =~= a);
    if t.text().len() > 0 { assert(src.subrange(n, n + b.len()) =~= src.take((a + b).len() as int).subrange(n, n + b.len())); assert((a + b).subrange(n, n + b.len()) =~= b); }
    else { assert(src.subrange(n, n) =~= t.text()); }
    assert(stands(t, src, n));
}
//@extract libs/preprocessor/src/parse/mod.rs | fn parse
//@sub (?s)PreprocessorParser::parse\(Rule::file, &source\)\s*\.map_err\(\|e\| ParsingFailed::code\(e, path\.clone\(\)\)\)\?; ==> pairs_of(&source, path)?; let ghost ps = pairs@; let ghost src = source@;
//@sub for pair in pairs \{ ==> for pair in seq(pairs) {
//@sub let mut tokens = Vec::new\(\); ==> let mut tokens: Vec<Arc<Token>> = Vec::new();
//@sub? (?s)Symbol::Word\(pair\.as_str\(\)\.to_string\(\)\) ==> Symbol::Word(str_string(pair.as_str()))
//@sub? (?s)Symbol::Word\((\w+)\.to_string\(\)\) ==> Symbol::Word(str_string(\1))
//@sub? (\w+)\.matches\('\\n'\)\.count\(\) ==> count_breaks(\1)
//@sub pair\.as_str\(\)\.split\('\\n'\)\.collect::<Vec<_>>\(\) ==> split_breaks(pair.as_str())
//@sub (?s)lines\s*\.last\(\)\s*\.expect\("[^"]*"\)\s*\.len\(\) ==> byte_len(lines[lines.len() - 1])
//@sub pair\.as_str\(\) == "//" ==> str_is(pair.as_str(), "//")
//@sub pair\.as_str\(\)\.len\(\) ==> byte_len(pair.as_str())
//@sub? \btext\.len\(\) ==> byte_len(text)
//@spec
    ensures r is Ok ==> all_traced((r->Ok_0)@, path.content(), *path) && texts((r->Ok_0)@) == seen(pieces(path.content())).text
//@entry
    hide(seen); hide(joined); hide(nls); hide(blen); hide(texts); hide(Pair::valid); hide(breaks_ok); hide(traced); hide(all_traced); hide(stands);
    broadcast use ax_fits;
//@index 0
//@loopinit 0
    let ghost p0 = *path;
    proof { lemma_start(ps, tokens@); assert(src.len() <= isize::MAX); }
//@loopstart 0
    let ghost pre = joined(ps.take(ix0 - 1)); let ghost t0 = tokens@; let ghost before = seen(ps.take(ix0 - 1));
    proof { assert(pair == ps[ix0 - 1]); lemma_piece(ps, ix0 - 1); }
//@before Ok\(tokens\)
    proof { assert(ps.take(ix0 as int) =~= ps); }
//@before tokens\.push\(Arc::new\(Token::new\(\s*Symbol::to_symbol
    let ghost t1 = tokens@;
//@loopend 0
    proof {
        if t1.len() > t0.len() { assert(t1.drop_last() =~= t0); lemma_stands(tok(t1.last()), src, pre, pair.text(), p0); lemma_added(t0, t1, src, p0); }
        assert(tokens@.drop_last() =~= t1); lemma_stands(tok(tokens@.last()), src, pre, pair.text(), p0); lemma_added(t1, tokens@, src, p0);
    }
//@loop 0 for
    invariant vs0@ == ps, 0 <= ix0 <= vs0@.len(), joined(ps) == src, p0 == *path, blen(src) <= isize::MAX,
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).valid() && breaks_ok(ps[i]),
        offset == blen(joined(ps.take(ix0 as int))), line == 1 + nls(joined(ps.take(ix0 as int))), col <= offset,
        in_single_string == seen(ps.take(ix0 as int)).single, in_double_string == seen(ps.take(ix0 as int)).double, skipping_comment == seen(ps.take(ix0 as int)).skip,
        texts(tokens@) == seen(ps.take(ix0 as int)).text,
        all_traced(tokens@, src, p0)
    decreases vs0@.len() - ix0
//@end
fn main() {}
}
