#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/fmt.rs
//@include inc/symbols.rs assumed
//@include inc/symis.rs
//@include inc/stream.rs
//@include inc/readlist.rs
//@include inc/defs.rs assumed
//@include inc/defs_fns.rs assumed
//@include inc/macrospec.rs
codes! { UnexpectedEOF(t: Token); ExpectedIdent(t: Token); UnexpectedToken(t: Token, e: Vec<String>); DefineMissingComma(t: Token, p: Token); FunctionAsValue(t: Token, s: Token); ExpectedFunctionOrValue(t: Token, s: Token, p: bool); FunctionCallArgumentCount(t: Token, n: usize, m: usize, d: &Defines); ChangeBuiltin(t: Token); ExecNotSupported(t: Token); BuiltInNotSupported(t: Token); }
impl Token {
    #[verifier::external_body] pub fn tok(&self) -> (r: Token) ensures r == *self { unimplemented!() }
    /// ToString for Token
    #[verifier::external_body] pub fn shown(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body] pub fn same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn opt_same(a: &String, m: Option<&str>) -> (r: bool) ensures r == (opt_str(m) == Some(a@)) { unimplemented!() }
#[verifier::external_body] pub fn any_of<const N: usize>(l: &[&str; N], k: &str) -> (r: bool) ensures r == lists1(l@, k@) { unimplemented!() }
/// the built-in names that are refused
pub uninterp spec fn refused(k: Seq<char>) -> bool;
impl Defines { #[verifier::external_body] pub fn is_unsupported_builtin(k: &str) -> (r: bool) ensures r == refused(k@) { unimplemented!() } }
#[verifier::external_body] pub fn pad_warnings(w: &mut Codes) { unimplemented!() }
/// A directive at the front (P01, P04; directive_define and directive_undef below).
pub uninterp spec fn directed(s: St, g: Pragma, rest: Toks, buf: Seq<Output>) -> Option<Out>;
/// An included file puts back what it pushed (it is read line by line, by `walk`).
pub broadcast axiom fn ax_directed(s: St, g: Pragma, rest: Toks, buf: Seq<Output>)
    requires directed(s, g, rest, buf) is Some
    ensures kept(s, (#[trigger] directed(s, g, rest, buf))->0.s);
// ---------------------------------------------------------------- there are finitely many names
/// the texts of `t` with one of the first `n` characters at the end
pub open spec fn grown(t: Set<Seq<char>>, n: nat) -> Set<Seq<char>>
    decreases n
{ if n == 0 { Set::empty() } else { grown(t, (n - 1) as nat).union(t.map(|s: Seq<char>| s.push(((n - 1) as u32) as char))) } }
/// the texts of at most `n` characters
pub open spec fn upto(n: nat) -> Set<Seq<char>>
    decreases n
{ if n == 0 { Set::<Seq<char>>::empty().insert(Seq::empty()) } else { upto((n - 1) as nat).union(grown(upto((n - 1) as nat), 0x110000)) } }
pub proof fn lemma_grown(t: Set<Seq<char>>, n: nat, s: Seq<char>)
    requires s.len() > 0, t.contains(s.drop_last()), (s.last() as u32) < n, n <= 0x110000
    ensures grown(t, n).contains(s)
    decreases n
{
    let f = |x: Seq<char>| x.push(((n - 1) as u32) as char);
    if (s.last() as u32) == n - 1 { assert(((n - 1) as u32) as char == s.last()); assert(s.drop_last().push(s.last()) =~= s); assert(f(s.drop_last()) == s); assert(t.map(f).contains(s)); }
    else { lemma_grown(t, (n - 1) as nat, s); }
}
pub proof fn lemma_upto(n: nat, s: Seq<char>)
    requires s.len() <= n
    ensures upto(n).contains(s)
    decreases n
{
    if s.len() == 0 { assert(s =~= Seq::empty()); if n > 0 { lemma_upto((n - 1) as nat, s); } }
    else { lemma_upto((n - 1) as nat, s.drop_last()); lemma_grown(upto((n - 1) as nat), 0x110000, s); }
}
pub open spec fn measure(e: Seq<Seq<char>>) -> nat { upto(isize::MAX as nat).difference(e.to_set()).len() }
pub proof fn lemma_measure(e: Seq<Seq<char>>, k: Seq<char>)
    requires !e.contains(k), k.len() <= isize::MAX
    ensures measure(e.push(k)) < measure(e)
{
    hide(upto);
    lemma_upto(isize::MAX as nat, k);
    let u = upto(isize::MAX as nat);
    assert(e.push(k).to_set() =~= e.to_set().insert(k)) by { assert forall|x: Seq<char>| e.push(k).to_set().contains(x) <==> e.to_set().insert(k).contains(x) by { if e.contains(x) { let i = e.index_of(x); assert(e.push(k)[i] == x); } if x == k { assert(e.push(k)[e.len() as int] == x); } } }
    assert(u.difference(e.push(k).to_set()) =~= u.difference(e.to_set()).remove(k));
    assert(u.difference(e.to_set()).contains(k));
}
// ---------------------------------------------------------------- output
pub open spec fn last_sym(o: Output) -> Option<Symbol>
    decreases o
{ match o { Output::Direct(t) => Some(t.symbol), Output::Macro(_, l) => if l@.len() == 0 { None } else { last_sym(l@.last()) } } }
/// A token put out: nothing while a branch is skipped, no comments, and a backslash joins the next line.
pub open spec fn put(s: St, t: Arc<Token>, buf: Seq<Output>) -> Seq<Output> {
    if !s.ifs.read() || t.symbol is Comment { buf }
    else if t.symbol is Newline && buf.len() > 0 && last_sym(buf.last()) is Some && last_sym(buf.last())->0 is Escape { buf.drop_last() }
    else { buf.push(Output::Direct(t)) }
}
pub open spec fn close(s: St, p: Option<Position>, buf: Seq<Output>) -> Seq<Output> { match p { Some(x) => put(s, tok(Symbol::DoubleQuote, x), buf), None => buf } }
pub open spec fn dir_name(k: Seq<char>) -> bool { k == "if"@ || k == "else"@ || k == "endif"@ || k == "ifdef"@ || k == "ifndef"@ || k == "define"@ || k == "undef"@ || k == "include"@ || k == "pragma"@ }
/// the token is not in the text at and after the use itself
pub open spec fn outside(t: Arc<Token>, site: Position) -> bool { t.source.path.text() != site.path.text() || t.source.start.0 < site.start.0 }
/// `#` in a macro puts the macro or parameter after it in quotes.
pub open spec fn quotes_next(site: Option<Position>, m: Option<Seq<char>>, d: Defines, rest: Toks) -> bool {
    m is Some && rest.len() > 1 && rest[1].symbol is Word && d.has(name(rest[1])) && site is Some && outside(rest[0], site->0)
}
// ---------------------------------------------------------------- reading the arguments of a use
pub struct Args { pub s: St, pub g: Pragma, pub rest: Toks, pub args: Seq<Vec<Arc<Token>>> }
pub open spec fn ends(args: Seq<Vec<Arc<Token>>>, arg: Toks) -> Seq<Vec<Arc<Token>>> { if arg.len() == 0 { args } else { args.push(vec_of(arg)) } }
/// The arguments up to the closing bracket: split at commas outside quotes, macros in them expanded.
pub open spec fn args_from(site: Position, s: St, g: Pragma, rest: Toks, quotes: bool, depth: usize, args: Seq<Vec<Arc<Token>>>, arg: Toks) -> Option<Args>
    decreases measure(s.exp), rest.len(), 2nat
{
    if rest.len() == 0 || rest[0].symbol is Eoi { Some(Args { s, g, rest, args: ends(args, arg) }) }
    else if quotes { args_from(site, s, g, rest.skip(1), !(rest[0].symbol is DoubleQuote), depth, args, arg.push(rest[0])) }
    else if rest[0].symbol is Word && s.d.has(name(rest[0])) {
        match used(site, s, g, rest, Seq::empty()) {
            None => None,
            Some(o) => if o.rest.len() < rest.len() && o.s.exp == s.exp { args_from(site, o.s, o.g, o.rest, quotes, depth, args, arg + flat(o.buf)) } else { None },
        }
    }
    else if rest[0].symbol is LeftParenthesis { args_from(site, s, g, rest.skip(1), quotes, next_count(depth), args, arg.push(rest[0])) }
    else if rest[0].symbol is RightParenthesis {
        if depth == 0 { Some(Args { s, g, rest: rest.skip(1), args: ends(args, arg) }) } else { args_from(site, s, g, rest.skip(1), quotes, (depth - 1) as usize, args, arg.push(rest[0])) }
    }
    else if rest[0].symbol is Comma { args_from(site, s, g, rest.skip(1), quotes, depth, args.push(vec_of(arg)), Seq::empty()) }
    else { args_from(site, s, g, rest.skip(1), rest[0].symbol is DoubleQuote, depth, args, arg.push(rest[0])) }
}
/// the parameters bound to the arguments
pub open spec fn bound(ps: Toks, args: Seq<Vec<Arc<Token>>>, n: int) -> Map<Seq<char>, Entry>
    decreases n
{ if n <= 0 { Map::empty() } else { bound(ps, args, n - 1).insert(name(ps[n - 1]), (ps[n - 1], Definition::Value(args[n - 1]), DefineSource::Argument)) } }
/// A use of the word at the front of `rest`: None is an error.
pub open spec fn used(site: Position, s: St, g: Pragma, rest: Toks, buf: Seq<Output>) -> Option<Out>
    decreases measure(s.exp), rest.len(), 1nat
{
    let t = rest[0];
    let k = name(t);
    let s1 = St { d: s.d.after(t, Some(site)), ..s };
    let rest1 = rest.skip(1);
    let eoi = tok(Symbol::Eoi, t.source);
    if rest.len() == 0 || !(t.symbol is Word) { None } else {
    match s.d.found(t, Some(site)) {
        None => Some(Out { s: s1, g, rest: rest1, buf: buf.push(Output::Direct(t)) }),
        Some((_, def, src)) => if !(src is Argument) && s.exp.contains(k) { Some(Out { s: s1, g, rest: rest1, buf: buf.push(Output::Direct(t)) }) } else {
            match def {
                Definition::Void => Some(Out { s: s1, g, rest: rest1, buf }),
                Definition::Unit => None,
                Definition::Value(v) =>
                    // an argument is put in as it was read
                    if src is Argument { Some(Out { s: s1, g, rest: rest1, buf: buf.push(Output::Macro(t, vec_of(v@.map_values(|x: Arc<Token>| Output::Direct(x))))) }) }
                    else if measure(s1.exp.push(k)) >= measure(s1.exp) { None }
                    else {
                        match walk_from(Some(site), Some(k), St { exp: s1.exp.push(k), ..s1 }, g, unjoined(v@).push(eoi), Seq::empty(), false, true, None) {
                            None => None,
                            Some(o) => Some(Out { s: St { exp: s.exp, ..o.s }, g: o.g, rest: rest1, buf: buf.push(Output::Macro(t, vec_of(o.buf))) }),
                        }
                    },
                Definition::Function(f) =>
                    // an argument is never a function
                    if src is Argument || !(rest1.len() > 0 && rest1[0].symbol is LeftParenthesis) { None } else {
                    match args_from(site, s1, g, rest1.skip(1), false, 0, Seq::empty(), Seq::empty()) {
                        None => None,
                        Some(a) => if a.args.len() != f.args@.len() || a.s.exp != s.exp || measure(a.s.exp.push(k)) >= measure(a.s.exp) || a.s.d.stack@.len() >= isize::MAX { None } else {
                            let inner = St { exp: a.s.exp.push(k), d: a.s.d.open_with(k, table_of(bound(f.args@, a.args, a.args.len() as int))), ..a.s };
                            match walk_from(Some(site), Some(k), inner, a.g, unjoined(f.body@).push(eoi), Seq::empty(), false, true, None) {
                                None => None,
                                Some(o) => Some(Out { s: St { exp: a.s.exp, d: o.s.d.closed(), ..o.s }, g: o.g, rest: a.rest, buf: buf.push(Output::Macro(t, vec_of(o.buf))) }),
                            }
                        },
                    } },
            } } } }
}
/// What one line (outside macros), or a macro's body, expands to: `q` inside string quotes, `jw` only whitespace so far on the line, `p` a quote to close after the next token. None is an error.
pub open spec fn walk_from(site: Option<Position>, m: Option<Seq<char>>, s: St, g: Pragma, rest: Toks, buf: Seq<Output>, q: bool, jw: bool, p: Option<Position>) -> Option<Out>
    decreases measure(s.exp), rest.len(), 2nat
{
    let t = rest[0];
    let n = rest.skip(1);
    if rest.len() == 0 || t.symbol is Eoi { Some(Out { s, g, rest, buf }) }
    else if t.symbol is Word && !q {
        if !s.ifs.read() { walk_from(site, m, s, g, n, close(s, p, buf), q, false, None) }
        else if name(t) == "__EXEC"@ || refused(name(t)) { None }
        else if m != Some(name(t)) && s.d.has(name(t)) {
            match used(if site is Some { site->0 } else { t.source }, s, g, rest, buf) {
                None => None,
                Some(o) => if o.rest.len() < rest.len() && o.s.exp == s.exp { walk_from(site, m, o.s, o.g, o.rest, close(o.s, p, o.buf), q, false, None) } else { None },
            }
        }
        else { walk_from(site, m, s, g, n, close(s, p, put(s, t, buf)), q, false, None) }
    }
    else if t.symbol is Directive && !q {
        if jw && rest.len() > 1 && dir_name(name(rest[1])) {
            match directed(s, g, rest, buf) {
                None => None,
                Some(o) => if o.rest.len() < rest.len() && o.s.exp == s.exp { walk_from(site, m, o.s, o.g, o.rest, o.buf, q, true, p) } else { None },
            }
        }
        else if quotes_next(site, m, s.d, rest) { walk_from(site, m, s, g, n, put(s, tok(Symbol::DoubleQuote, t.source), buf), q, jw, Some(t.source)) }
        else { walk_from(site, m, s, g, n, close(s, p, put(s, t, buf)), q, jw, None) }
    }
    else if t.symbol is Newline && !q {
        if m is None { Some(Out { s, g, rest: n, buf: put(s, t, buf) }) } else { walk_from(site, m, s, g, n, close(s, p, put(s, t, buf)), q, true, None) }
    }
    else { walk_from(site, m, s, g, n, close(s, p, put(s, t, buf)), if t.symbol is DoubleQuote { !q } else { q }, jw && t.symbol is Whitespace, None) }
}
pub open spec fn walked(site: Option<Position>, m: Option<Seq<char>>, s: St, g: Pragma, ts: Toks, buf: Seq<Output>) -> Option<Out> { walk_from(site, m, s, g, ts, buf, false, true, None) }
pub proof fn lemma_dirs(l: Seq<&str>)
    requires l.len() == 9, l[0]@ == "if"@, l[1]@ == "else"@, l[2]@ == "endif"@, l[3]@ == "ifdef"@, l[4]@ == "ifndef"@, l[5]@ == "define"@, l[6]@ == "undef"@, l[7]@ == "include"@, l[8]@ == "pragma"@
    ensures forall|k: Seq<char>| #[trigger] lists1(l, k) <==> dir_name(k)
{
    assert forall|k: Seq<char>| #[trigger] lists1(l, k) <==> dir_name(k) by {
        if dir_name(k) { assert(l[0]@ == k || l[1]@ == k || l[2]@ == k || l[3]@ == k || l[4]@ == k || l[5]@ == k || l[6]@ == k || l[7]@ == k || l[8]@ == k); }
    }
}
impl Output {
//@extract libs/workspace/src/reporting/output.rs | impl Output @ fn last_symbol
//@sub t\.last\(\)\.and_then\(Self::last_symbol\) ==> (match t.last() { Some(x_) => x_.last_symbol(), None => None })
//@spec
    ensures r is Some <==> last_sym(*self) is Some, r is Some ==> *r->0 == last_sym(*self)->0
    decreases self
//@end
}
/// `inner.into_iter().map(Into::into).collect().concat()`: all tokens, in order (unit processed, From<Output>)
#[verifier::external_body] pub fn flat_tokens(v: Vec<Output>) -> (r: Vec<Arc<Token>>) ensures r@ == flat(v@) { unimplemented!() }
#[verifier::external_body] pub fn directs(v: Vec<Arc<Token>>) -> (r: Vec<Output>) ensures r@ == v@.map_values(|x: Arc<Token>| Output::Direct(x)) { unimplemented!() }
#[verifier::external_body] pub fn contains_string(v: &Vec<String>, k: &String) -> (r: bool) ensures r == texts(v@).contains(k@) { unimplemented!() }
/// slice::Iter::zip(vec::IntoIter)
#[verifier::external_body] pub struct Zip<'a> { x: &'a int }
impl<'a> Zip<'a> {
    pub uninterp spec fn ps(&self) -> Toks;
    pub uninterp spec fn vs(&self) -> Seq<Vec<Arc<Token>>>;
    pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a Arc<Token>, Vec<Arc<Token>>)>)
        ensures final(self).ps() == old(self).ps(), final(self).vs() == old(self).vs(),
            old(self).i() < old(self).ps().len() && old(self).i() < old(self).vs().len() ==> r is Some && *(r->0).0 == old(self).ps()[old(self).i()] && (r->0).1 == old(self).vs()[old(self).i()] && final(self).i() == old(self).i() + 1,
            !(old(self).i() < old(self).ps().len() && old(self).i() < old(self).vs().len()) ==> r is None && *final(self) == *old(self),
    { unimplemented!() }
}
#[verifier::external_body] pub fn zip_args<'a>(p: &'a [Arc<Token>], v: Vec<Vec<Arc<Token>>>) -> (r: Zip<'a>) ensures r.ps() == p@, r.vs() == v@, r.i() == 0 { unimplemented!() }
pub open spec fn opt_pos(p: Option<&Position>) -> Option<Position> { match p { Some(x) => Some(*x), None => None } }
pub open spec fn opt_str(p: Option<&str>) -> Option<Seq<char>> { match p { Some(x) => Some(x@), None => None } }
impl Processor {
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn output
//@sub buffer\s*\.last\(\)\s*\.is_some_and\(\|t\| t\.last_symbol\(\)\.is_some_and\(Symbol::is_escape\)\) ==> (match buffer.last() { Some(t) => (match t.last_symbol() { Some(y_) => y_.is_escape(), None => false }), None => false })
//@sub self\.token_count \+= 1; ==> 
//@spec
    ensures *final(self) == *old(self), final(buffer)@ == put(old(self).st(), token, old(buffer)@)
//@end
    #[verifier::external_body] fn directive(&mut self, pragma: &mut Pragma, stream: &mut Stream, buffer: &mut Vec<Output>) -> (r: Result<bool, Error>)
        requires old(self).defines.args_plain(), tail_ok(old(stream).rest()), old(stream).rest().len() > 0, old(stream).at() == 0
        ensures final(self).defines.args_plain(), r is Ok ==> texts(final(self).expanding@) == texts(old(self).expanding@), final(stream).at() == 0, tail_ok(final(stream).rest()),
            ({
                let o = directed(old(self).st(), *old(pragma), old(stream).rest(), old(buffer)@);
                &&& r is Ok <==> o is Some
                &&& r is Ok ==> final(self).st() == o->0.s && *final(pragma) == o->0.g && final(stream).rest() == o->0.rest && final(buffer)@ == o->0.buf
                &&& r is Ok && old(stream).rest()[0].symbol is Directive ==> final(stream).rest().len() < old(stream).rest().len()
            }),
    { unimplemented!() }
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn walk
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub? \(\*\*token\)\.clone\(\) ==> (**token).tok()
//@sub (\w+) == ("[^"]*") ==> same_text(\1, \2)
//@sub Some\((\w+)\.as_str\(\)\) != in_macro ==> !opt_same(\1, in_macro)
//@sub callsite\.unwrap_or_else\(\|\| (token\.position\(\))\) ==> (match callsite { Some(c_) => c_, None => \1 })
//@sub \[((?:\s*"[^"]*",?)*)\s*\]\s*\.contains\(&command\.to_string\(\)\.as_str\(\)\) ==> ({ let l_ = [\1]; proof { lemma_dirs(l_@); } any_of(&l_, command.shown().as_str()) })
//@sub stream\.peek\(\)\.is_some_and\(\|t\| t\.symbol\(\)\.is_word\(\) && self\.defines\.contains_key\(&t\.symbol\(\)\.to_string\(\)\)\) ==> (match stream.peek() { Some(t) => t.symbol().is_word() && self.defines.contains_key(text_string(t).as_str()), None => false })
//@spec
    requires old(self).defines.args_plain(), tail_ok(old(stream).rest()), old(stream).at() == 0, in_macro is Some ==> callsite is Some
    ensures final(self).defines.args_plain(), r is Ok ==> texts(final(self).expanding@) == texts(old(self).expanding@), final(stream).at() == 0, tail_ok(final(stream).rest()),
        ({
            let o = walked(opt_pos(callsite), opt_str(in_macro), old(self).st(), *old(pragma), old(stream).rest(), old(buffer)@);
            &&& r is Ok <==> o is Some
            &&& r is Ok ==> final(self).st() == o->0.s && *final(pragma) == o->0.g && final(stream).rest() == o->0.rest && final(buffer)@ == o->0.buf
        }),
    decreases measure(texts(old(self).expanding@)), old(stream).rest().len(), 2nat
//@loopstart 0
    broadcast use ax_arc;
//@loop 0 while
    invariant
        self.defines.args_plain(), texts(self.expanding@) == texts(old(self).expanding@), stream.rest().len() <= old(stream).rest().len(),
        tail_ok(stream.rest()), stream.at() == 0, in_macro is Some ==> callsite is Some,
        walked(opt_pos(callsite), opt_str(in_macro), old(self).st(), *old(pragma), old(stream).rest(), old(buffer)@) == walk_from(opt_pos(callsite), opt_str(in_macro), self.st(), *pragma, stream.rest(), buffer@, in_quotes, just_whitespace, quote),
    ensures stream.rest().len() == 0
    decreases stream.rest().len()
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn current_word
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@spec
    requires old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(stream).at() == 0,
        r is Ok <==> old(stream).rest()[0].symbol is Word,
        r is Ok ==> r->Ok_0 == old(stream).rest()[0],
        final(stream).rest() == if old(stream).rest()[0].symbol is Eoi { old(stream).rest() } else { old(stream).rest().skip(1) },
//@end
//@extract libs/preprocessor/src/processor/defines.rs | impl Processor @ fn call_read_args
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub &mut inner\s*\.into_iter\(\)\s*\.map\(std::convert::Into::into\)\s*\.collect::<Vec<Vec<Arc<Token>>>>\(\)\s*\.concat\(\) ==> &mut flat_tokens(inner)
//@sub let mut depth = 0; ==> let mut depth: usize = 0;
//@sub depth \+= 1; ==> depth = count_up(depth);
//@spec
    requires old(self).defines.args_plain(), tail_ok(old(stream).rest()), old(stream).rest().len() > 0, old(stream).at() == 0
    ensures final(self).defines.args_plain(), r is Ok ==> texts(final(self).expanding@) == texts(old(self).expanding@), final(stream).at() == 0, tail_ok(final(stream).rest()),
        !(old(stream).rest()[0].symbol is LeftParenthesis) ==> r == Ok::<Option<Vec<Vec<Arc<Token>>>>, Error>(None) && *final(self) == *old(self) && *final(pragma) == *old(pragma) && *final(stream) == *old(stream),
        old(stream).rest()[0].symbol is LeftParenthesis ==> ({
            let a = args_from(*callsite, old(self).st(), *old(pragma), old(stream).rest().skip(1), false, 0, Seq::empty(), Seq::empty());
            &&& r is Ok <==> a is Some
            &&& r is Ok ==> r->Ok_0 is Some && (r->Ok_0)->0@ == a->0.args && final(self).st() == a->0.s && *final(pragma) == a->0.g && final(stream).rest() == a->0.rest && final(stream).rest().len() < old(stream).rest().len()
        }),
    decreases measure(texts(old(self).expanding@)), old(stream).rest().len(), 2nat
//@entry
    broadcast use ax_vec;
    let ghost s0 = stream.rest().skip(1);
//@loopstart 0
    broadcast use ax_vec;
//@loop 0 while
    invariant_except_break
        args_from(*callsite, old(self).st(), *old(pragma), s0, false, 0, Seq::empty(), Seq::empty()) == args_from(*callsite, self.st(), *pragma, stream.rest(), quotes, depth, args@, arg@),
    invariant self.defines.args_plain(), texts(self.expanding@) == texts(old(self).expanding@), stream.at() == 0, tail_ok(stream.rest()), stream.rest().len() < old(stream).rest().len(), s0 == old(stream).rest().skip(1), old(stream).rest()[0].symbol is LeftParenthesis,
    ensures
        args_from(*callsite, old(self).st(), *old(pragma), s0, false, 0, Seq::empty(), Seq::empty()) == Some(Args { s: self.st(), g: *pragma, rest: stream.rest(), args: ends(args@, arg@) }),
    decreases stream.rest().len()
//@end
//@extract libs/preprocessor/src/processor/defines.rs | impl Processor @ fn define_use
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub let ident_string = ident\.to_string\(\); ==> let ident_string = text_string(&ident);
//@sub self\.expanding\.contains\(&ident_string\) ==> contains_string(&self.expanding, &ident_string)
//@sub &self\.defines\.clone\(\) ==> &self.defines
//@sub HashMap::new\(\) ==> InnerDefines::new()
//@sub function\.args\(\)\.iter\(\)\.zip\(args\) ==> zip_args(function.args(), args)
//@sub if !pragma\.is_suppressed(?s:.*?)(?=arg_defines\.insert) ==> pad_warnings(&mut self.warnings);
//@sub Arc::from\(arg\.to_string\(\)\.as_str\(\)\) ==> name_of(text_string(arg).as_str())
//@sub &mut function\.stream\(\)\.chain\(std::iter::once\(end\)\)\.peekmore\(\) ==> &mut chained(function.stream(), end)
//@sub body\.into_iter\(\)\.map\(Output::Direct\)\.collect\(\) ==> directs(body)
//@sub body\s*\.into_iter\(\)\s*\.filter\(\|t\| (.*?)\)\s*\.chain\(std::iter::once\(end\)\) ==> tok_it(body).filter(|t: &Arc<Token>| -> (b: bool) ensures b == !(t.symbol is Join) { \1 }).chain_once(end)
//@sub &mut body\.into_iter\(\)\.peekmore\(\) ==> &mut tok_it(body).peekmore()
//@sub self\.usage\.get_mut(?s:.*?)\}\,\s*\); ==> ;
//@sub self\.declarations\s*\.insert(?s:.*?)\); ==> ;
//@desugar 0
//@spec
    requires old(self).defines.args_plain(), tail_ok(old(stream).rest()), old(stream).rest().len() > 0, old(stream).at() == 0
    ensures final(self).defines.args_plain(), r is Ok ==> texts(final(self).expanding@) == texts(old(self).expanding@), final(stream).at() == 0, tail_ok(final(stream).rest()),
        ({
            let o = used(*callsite, old(self).st(), *old(pragma), old(stream).rest(), old(buffer)@);
            &&& r is Ok <==> o is Some
            &&& r is Ok ==> final(self).st() == o->0.s && *final(pragma) == o->0.g && final(stream).rest() == o->0.rest && final(buffer)@ == o->0.buf && final(stream).rest().len() < old(stream).rest().len()
        }),
    decreases measure(texts(old(self).expanding@)), old(stream).rest().len(), 1nat
//@entry
    broadcast use ax_vec, ax_table, ax_arc, ax_string, ax_fits, ax_stack_fits, lemma_texts_push, lemma_texts_pop, lemma_push_pop;
//@before let end = Arc::new\(Token::new\(Symbol::Eoi, ident\.position\(\)\.clone\(\)\)\);
    proof { if !(define_source is Argument) { assert(ident_string@.len() <= isize::MAX); lemma_measure(texts(self.expanding@), ident_string@); } }
//@before let body: Vec<_>
    let ghost body0 = body@;
    proof { lemma_unjoined(body0); }
//@after \.chain_once\(end\)\s*\.collect\(\);
    proof { assert(body@ == body0.filter(not_join()).push(eoi0)); }
//@after let end = Arc::new\(Token::new\(Symbol::Eoi, ident\.position\(\)\.clone\(\)\)\);
    let ghost eoi0 = end;
//@after let mut arg_defines = InnerDefines::new\(\);
    let ghost vs = args@;
//@exit
    proof {
        let o = used(*callsite, old(self).st(), *old(pragma), old(stream).rest(), old(buffer)@);
        assert(o is Some);
        assert(buffer@ == o->0.buf);
        assert(stream.rest() == o->0.rest);
        assert(*pragma == o->0.g);
        assert(self.st().exp == o->0.s.exp);
        assert(self.st().d == o->0.s.d);
    }
//@loop 0 for
    invariant it0.ps() == function.args@, it0.vs() == vs, 0 <= it0.i() <= vs.len(), vs.len() == function.args@.len(), arg_defines@ == bound(function.args@, vs, it0.i()), plain_table(arg_defines),
    ensures it0.i() == vs.len()
    decreases vs.len() - it0.i()
//@end
//@extract libs/preprocessor/src/processor/defines.rs | impl Processor @ fn define_read_args
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub panic!\((?s:.*?)\);\s*(?=\}) ==> no_way();
//@sub vec!\[(?:"[^"]*"\.to_string\(\)(?:, )?)*\] ==> Vec::new()
//@spec
    requires old(stream).at() == 0, tail_ok(old(stream).rest()), old(stream).rest().len() > 0, old(stream).rest()[0].symbol is LeftParenthesis
    ensures final(stream).at() == 0, tail_ok(final(stream).rest()),
        ({
            let p = params(old(stream).rest().skip(1), false, Seq::empty());
            &&& r is Ok <==> p is Some
            &&& r is Ok ==> (r->Ok_0)@ == (p->0).0 && final(stream).rest() == (p->0).1
        }),
//@loop 0 while
    invariant_except_break params(old(stream).rest().skip(1), false, Seq::empty()) == params(stream.rest(), comma_next, args@),
    invariant stream.at() == 0, tail_ok(stream.rest()), comma_next ==> args@.len() > 0,
    ensures params(old(stream).rest().skip(1), false, Seq::empty()) == Some((args@, stream.rest()))
    decreases stream.rest().len()
//@end
//@extract libs/preprocessor/src/processor/defines.rs | impl Processor @ fn define_read_body
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub stream\.by_ref\(\) ==> stream
//@sub? let mut body = Vec::new\(\); ==> let mut body: Vec<Arc<Token>> = Vec::new();
//@sub body\s*\.last\(\)\s*\.is_some_and\(\|t: &Arc<Token>\| (.*?)\)\s*(?=\{) ==> (match body.last() { Some(t) => \1, None => false }) 
//@desugar 0
//@spec
    requires old(stream).at() == 0, tail_ok(old(stream).rest())
    ensures final(stream).at() == 0, tail_ok(final(stream).rest()), *final(self) == *old(self),
        (r@, final(stream).rest()) == body_of(skip_ws(old(stream).rest()), Seq::empty()),
//@loop 0 for
    invariant_except_break body_of(it0.rest(), body@) == body_of(skip_ws(old(stream).rest()), Seq::empty()),
    invariant it0.at() == 0, tail_ok(it0.rest()), *final(stream) == *final(it0), *self == *old(self),
    ensures (body@, it0.rest()) == body_of(skip_ws(old(stream).rest()), Seq::empty()),
    decreases it0.rest().len()
//@entry
    proof { lemma_tail_ws(stream.rest()); }
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_define
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub let ident_string = ident\.symbol\(\)\.to_string\(\); ==> let ident_string = text_string(&ident);
//@sub self\.warnings\.push\((?s:.*?)\)\)\); ==> pad_warnings(&mut self.warnings);
//@sub self\.usage\.insert(?s:.*?)\); ==> ;
//@sub self\.macros\s*\.entry\(ident_string\.clone\(\)\)\s*\.or_default\(\)\s*\.push\( ==> self.macros.note(&ident_string, 
//@sub self\.file_stack\.clone\(\) ==> paths_clone(&self.file_stack)
//@spec
    requires old(stream).at() == 0, tail_ok(old(stream).rest()), old(stream).rest().len() > 0
    ensures old(self).defines.args_plain() ==> final(self).defines.args_plain(), final(stream).at() == 0, tail_ok(final(stream).rest()),
        ({
            let o = defined(old(self).st(), old(stream).rest());
            &&& r is Ok <==> o is Some
            &&& r is Ok ==> final(self).st() == (o->0).0 && final(stream).rest() == (o->0).1
        }),
//@entry
    broadcast use ax_vec;
    proof { lemma_tail_ws(stream.rest()); }
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_undef
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub let ident_string = ident\.symbol\(\)\.to_string\(\); ==> let ident_string = text_string(&ident);
//@spec
    requires old(stream).at() == 0, tail_ok(old(stream).rest()), old(stream).rest().len() > 0
    ensures old(self).defines.args_plain() ==> final(self).defines.args_plain(), ({
            let s = skip_ws(old(stream).rest());
            &&& r is Ok <==> s[0].symbol is Word && blank_line(s.skip(1))
            &&& r is Ok ==> final(self).st() == (St { d: old(self).st().d.without(name(s[0])), ..old(self).st() }) && final(stream).rest() == after_blank(s.skip(1))
        }),
//@entry
    proof { lemma_tail_ws(stream.rest()); }
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn next_word
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub buffer: Option<&mut Vec<Output>> ==> buffer: Option<u8>
//@spec
    requires old(stream).at() == 0, skip_ws(old(stream).rest()).len() > 0, buffer is None
    ensures *final(self) == *old(self), final(stream).at() == 0,
        ({ let s = skip_ws(old(stream).rest());
           &&& r is Ok <==> s[0].symbol is Word
           &&& r is Ok ==> r->Ok_0 == s[0]
           &&& final(stream).rest() == if s[0].symbol is Eoi { s } else { s.skip(1) } }),
//@end
    /// proved in unit pre_cond
    #[verifier::external_body] fn skip_whitespace(&mut self, stream: &mut Stream, buffer: Option<u8>)
        requires old(stream).at() == 0, buffer is None
        ensures *final(self) == *old(self), final(stream).at() == 0, final(stream).rest() == skip_ws(old(stream).rest())
    { unimplemented!() }
    /// proved in unit pre_cond
    #[verifier::external_body] fn expect_nothing_to_newline(stream: &mut Stream) -> (r: Result<(), Error>)
        requires old(stream).at() == 0
        ensures final(stream).at() == 0, r is Ok <==> blank_line(old(stream).rest()), final(stream).rest() == after_blank(old(stream).rest())
    { unimplemented!() }
}
pub proof fn lemma_tail_ws(s: Toks)
    requires tail_ok(s)
    ensures tail_ok(skip_ws(s)), s.len() > 0 ==> skip_ws(s).len() > 0
    decreases s.len()
{ if s.len() > 0 && s[0].symbol.ws() { assert(s.len() > 1); assert(s.skip(1).last() == s.last()); lemma_tail_ws(s.skip(1)); } }
#[verifier::external_body] pub fn paths_clone(v: &Vec<WorkspacePath>) -> (r: Vec<WorkspacePath>) ensures r == *v { unimplemented!() }
/// the other built-in names
pub uninterp spec fn other_builtin(k: Seq<char>) -> bool;
impl Defines { #[verifier::external_body] pub fn is_builtin(k: &str) -> (r: bool) ensures r == (gen_name(k@) || other_builtin(k@)) { unimplemented!() } }
/// the parameters of a definition: names separated by commas, up to the closing bracket
pub open spec fn params(rest: Toks, comma: bool, args: Toks) -> Option<(Toks, Toks)>
    decreases rest.len()
{
    if rest.len() == 0 { Some((args, rest)) }
    else if rest[0].symbol is Word { if comma { None } else { params(rest.skip(1), true, args.push(rest[0])) } }
    else if rest[0].symbol is Comma { if comma { params(rest.skip(1), false, args) } else { None } }
    else if rest[0].symbol is RightParenthesis { Some((args, rest.skip(1))) }
    else if rest[0].symbol.ws() { params(rest.skip(1), comma, args) }
    else { None }
}
/// the body of a definition: up to the end of the line, a backslash at its end continues it
pub open spec fn body_of(rest: Toks, body: Toks) -> (Toks, Toks)
    decreases rest.len()
{
    if rest.len() == 0 { (body, rest) }
    else if rest[0].symbol is Newline { if body.len() > 0 && body.last().symbol is Escape { body_of(rest.skip(1), body.drop_last().push(rest[0])) } else { (body, rest.skip(1)) } }
    else if rest[0].symbol is Eoi { body_of(rest.skip(1), body) }
    else { body_of(rest.skip(1), body.push(rest[0])) }
}
pub open spec fn span(t: Arc<Token>, body: Toks) -> Position { if body.len() == 0 { t.source } else { Position { start: body[0].source.start, end: body.last().source.end, path: t.source.path } } }
/// `#define` with `rest` after it: None is an error
pub open spec fn defined(s: St, rest: Toks) -> Option<(St, Toks)> {
    let r = skip_ws(rest);
    let t = r[0];
    let k = name(t);
    let n = r.skip(1);
    let with = |d: Definition, rest2: Toks| Some((St { d: s.d.without(k).with(k, (t, d, DefineSource::Source(s.files))), ..s }, rest2));
    if !(t.symbol is Word) || gen_name(k) || other_builtin(k) { None }
    else if n[0].symbol is LeftParenthesis {
        match params(n.skip(1), false, Seq::empty()) {
            None => None,
            Some((ps, after)) => ({ let b = body_of(skip_ws(after), Seq::empty()); with(Definition::Function(FunctionDefinition { position: span(t, b.0), args: vec_of(ps), body: vec_of(b.0) }), b.1) }),
        }
    }
    else if n[0].symbol is Newline || n[0].symbol is Eoi { with(Definition::Unit, n) }
    else { let b = body_of(skip_ws(n), Seq::empty()); with(Definition::Value(vec_of(b.0)), b.1) }
}
/// From<Output> for Vec<Arc<Token>>
//@extract libs/workspace/src/reporting/output.rs | impl From<Output> for Vec<Arc<Token>> @ fn from
//@sub fn from\(value: Output\) -> Self ==> fn output_tokens(value: Output) -> Vec<Arc<Token>>
//@sub t\s*\.into_iter\(\)\s*\.flat_map\(<Output as Into<Self>>::into\)\s*\.collect\(\) ==> flat_tokens(t)
//@spec
    ensures r@ == flat1(value)
//@exit
    proof { assert(value is Direct ==> tailv@ =~= flat1(value)); }
//@end
// ---------------------------------------------------------------- what scopes mean
/// A definition holds until the name is defined again or undefined, and nothing else is touched.
pub proof fn theorem_defined(d: Defines, k: Seq<char>, e: Entry, j: Seq<char>)
    requires d.stack@.len() <= isize::MAX
    ensures d.with(k, e).visible(k) == Some(e), j != k ==> d.with(k, e).visible(j) == d.visible(j), j != k ==> d.without(k).visible(j) == d.visible(j),
        d.stack@.len() == 0 ==> d.without(k).visible(k) is None,
        d.with(k, e).stack@.len() == d.stack@.len(), d.without(k).stack@.len() == d.stack@.len(),
{
    broadcast use ax_vec_view, ax_table_view, ax_vec, ax_table;
    if d.stack@.len() > 0 {
        let n = d.stack@.len() - 1;
        assert(d.stack@.update(n, (d.stack@.last().0, table_of(d.stack@.last().1@.insert(k, e)))).len() == d.stack@.len());
        assert(d.with(k, e).stack@.last() == (d.stack@.last().0, table_of(d.stack@.last().1@.insert(k, e))));
        assert(d.without(k).stack@.last() == (d.stack@.last().0, table_of(d.stack@.last().1@.remove(k))));
    }
}
/// Inside a macro its parameters stand for the arguments, whatever is defined outside; other names keep their meaning.
pub proof fn theorem_parameters(d: Defines, k: Seq<char>, ps: Toks, args: Seq<Vec<Arc<Token>>>, i: int)
    requires ps.len() == args.len(), 0 <= i < ps.len(), forall|a: int, b: int| 0 <= a < b < ps.len() ==> name(#[trigger] ps[a]) != name(#[trigger] ps[b]), d.stack@.len() < isize::MAX
    ensures d.open_with(k, table_of(bound(ps, args, args.len() as int))).visible(name(ps[i])) == Some((ps[i], Definition::Value(args[i]), DefineSource::Argument)),
        d.open_with(k, table_of(bound(ps, args, args.len() as int))).closed() == d,
{
    broadcast use ax_vec_view, ax_table_view, ax_vec;
    lemma_bound_at(ps, args, args.len() as int, i);
    let o = d.open_with(k, table_of(bound(ps, args, args.len() as int)));
    assert(o.stack@.drop_last() =~= d.stack@);
}
pub proof fn lemma_bound_at(ps: Toks, args: Seq<Vec<Arc<Token>>>, n: int, i: int)
    requires ps.len() == args.len(), 0 <= i < n <= ps.len(), forall|a: int, b: int| 0 <= a < b < ps.len() ==> name(#[trigger] ps[a]) != name(#[trigger] ps[b])
    ensures bound(ps, args, n).dom().contains(name(ps[i])), bound(ps, args, n)[name(ps[i])] == (ps[i], Definition::Value(args[i]), DefineSource::Argument)
    decreases n
{ if i < n - 1 { lemma_bound_at(ps, args, n - 1, i); assert(name(ps[i]) != name(ps[n - 1])); } }
/// A use leaves the scopes as they were: parameters are visible only inside their macro.
pub proof fn theorem_scopes_args(site: Position, s: St, g: Pragma, rest: Toks, quotes: bool, depth: usize, args: Seq<Vec<Arc<Token>>>, arg: Toks)
    requires args_from(site, s, g, rest, quotes, depth, args, arg) is Some
    ensures kept(s, args_from(site, s, g, rest, quotes, depth, args, arg)->0.s)
    decreases measure(s.exp), rest.len(), 2nat
{
    if rest.len() == 0 || tk(rest[0]).symbol is Eoi { }
    else if !quotes && tk(rest[0]).symbol is Word && s.d.has(name(rest[0])) {
        theorem_scopes(site, s, g, rest, Seq::empty());
        let o = used(site, s, g, rest, Seq::empty())->0;
        theorem_scopes_args(site, o.s, o.g, o.rest, quotes, depth, args, arg + flat(o.buf));
    }
    else if quotes { theorem_scopes_args(site, s, g, rest.skip(1), !(tk(rest[0]).symbol is DoubleQuote), depth, args, arg.push(rest[0])); }
    else if tk(rest[0]).symbol is LeftParenthesis { theorem_scopes_args(site, s, g, rest.skip(1), quotes, next_count(depth), args, arg.push(rest[0])); }
    else if tk(rest[0]).symbol is RightParenthesis { if depth != 0 { theorem_scopes_args(site, s, g, rest.skip(1), quotes, (depth - 1) as usize, args, arg.push(rest[0])); } }
    else if tk(rest[0]).symbol is Comma { theorem_scopes_args(site, s, g, rest.skip(1), quotes, depth, args.push(vec_of(arg)), Seq::empty()); }
    else { theorem_scopes_args(site, s, g, rest.skip(1), tk(rest[0]).symbol is DoubleQuote, depth, args, arg.push(rest[0])); }
}
pub proof fn theorem_scopes(site: Position, s: St, g: Pragma, rest: Toks, buf: Seq<Output>)
    requires used(site, s, g, rest, buf) is Some
    ensures kept(s, used(site, s, g, rest, buf)->0.s)
    decreases measure(s.exp), rest.len(), 1nat
{
    broadcast use ax_vec_view, lemma_push_pop;
    let t = rest[0];
    let k = name(t);
    let s1 = St { d: s.d.after(t, Some(site)), ..s };
    let eoi = tok(Symbol::Eoi, tk(t).source);
    match s.d.found(t, Some(site)) {
        Some((_, Definition::Function(f), src)) => {
            if !(!(src is Argument) && s.exp.contains(k)) {
                theorem_scopes_args(site, s1, g, rest.skip(1).skip(1), false, 0, Seq::empty(), Seq::empty());
                let a = args_from(site, s1, g, rest.skip(1).skip(1), false, 0, Seq::empty(), Seq::empty())->0;
                let d = a.s.d.open_with(k, table_of(bound(f.args@, a.args, a.args.len() as int)));
                assert(d.stack@.drop_last() =~= a.s.d.stack@);
                theorem_kept(Some(site), Some(k), St { exp: a.s.exp.push(k), d, ..a.s }, a.g, unjoined(f.body@).push(eoi), Seq::empty(), false, true, None);
            }
        },
        Some((_, Definition::Value(v), src)) => {
            if !(src is Argument) && !s.exp.contains(k) {
                theorem_kept(Some(site), Some(k), St { exp: s1.exp.push(k), ..s1 }, g, unjoined(v@).push(eoi), Seq::empty(), false, true, None);
            }
        },
        _ => {},
    }
}
/// A parameter is replaced by its argument, token for token.
pub proof fn theorem_argument(site: Position, s: St, g: Pragma, rest: Toks, buf: Seq<Output>, p: Arc<Token>, v: Vec<Arc<Token>>)
    requires rest.len() > 0, rest[0].symbol is Word, !gen_name(name(rest[0])), s.d.visible(name(rest[0])) == Some((p, Definition::Value(v), DefineSource::Argument))
    ensures used(site, s, g, rest, buf) == Some(Out { s, g, rest: rest.skip(1), buf: buf.push(Output::Macro(rest[0], vec_of(v@.map_values(|x: Arc<Token>| Output::Direct(x))))) })
{ }
/// A macro that is being expanded is not expanded again.
pub proof fn theorem_recursion(site: Position, s: St, g: Pragma, rest: Toks, buf: Seq<Output>)
    requires rest.len() > 0, rest[0].symbol is Word, !gen_name(name(rest[0])), s.exp.contains(name(rest[0])), s.d.visible(name(rest[0])) is Some, !((s.d.visible(name(rest[0]))->0).2 is Argument)
    ensures used(site, s, g, rest, buf) == Some(Out { s, g, rest: rest.skip(1), buf: buf.push(Output::Direct(rest[0])) })
{ }
/// Expansion puts back what it pushed.
pub proof fn theorem_kept(site: Option<Position>, m: Option<Seq<char>>, s: St, g: Pragma, rest: Toks, buf: Seq<Output>, q: bool, jw: bool, p: Option<Position>)
    requires walk_from(site, m, s, g, rest, buf, q, jw, p) is Some
    ensures kept(s, walk_from(site, m, s, g, rest, buf, q, jw, p)->0.s)
    decreases measure(s.exp), rest.len(), 2nat
{
    broadcast use ax_directed;
    let t = rest[0];
    let n = rest.skip(1);
    if rest.len() == 0 || tk(t).symbol is Eoi { }
    else if tk(t).symbol is Word && !q {
        if !s.ifs.read() { theorem_kept(site, m, s, g, n, close(s, p, buf), q, false, None); }
        else if m != Some(name(t)) && s.d.has(name(t)) {
            let from = if site is Some { site->0 } else { tk(t).source };
            let o = used(from, s, g, rest, buf)->0;
            theorem_scopes(from, s, g, rest, buf);
            theorem_kept(site, m, o.s, o.g, o.rest, close(o.s, p, o.buf), q, false, None);
        }
        else { theorem_kept(site, m, s, g, n, close(s, p, put(s, t, buf)), q, false, None); }
    }
    else if tk(t).symbol is Directive && !q {
        if jw && rest.len() > 1 && dir_name(name(rest[1])) {
            let o = directed(s, g, rest, buf)->0;
            theorem_kept(site, m, o.s, o.g, o.rest, o.buf, q, true, p);
        }
        else if quotes_next(site, m, s.d, rest) { theorem_kept(site, m, s, g, n, put(s, tok(Symbol::DoubleQuote, tk(t).source), buf), q, jw, Some(tk(t).source)); }
        else { theorem_kept(site, m, s, g, n, close(s, p, put(s, t, buf)), q, jw, None); }
    }
    else if tk(t).symbol is Newline && !q { if m is Some { theorem_kept(site, m, s, g, n, close(s, p, put(s, t, buf)), q, true, None); } }
    else { theorem_kept(site, m, s, g, n, close(s, p, put(s, t, buf)), if tk(t).symbol is DoubleQuote { !q } else { q }, jw && tk(t).symbol is Whitespace, None); }
}
/// a parameter of the macro being expanded
pub open spec fn param(d: Defines, t: Arc<Token>) -> bool { t.symbol is Word && !gen_name(name(t)) && d.has(name(t)) && d.visible(name(t)) is Some && (d.visible(name(t))->0).2 is Argument && (d.visible(name(t))->0).1 is Value }
pub open spec fn given(d: Defines, t: Arc<Token>) -> Output { Output::Macro(t, vec_of(((d.visible(name(t))->0).1->Value_0)@.map_values(|x: Arc<Token>| Output::Direct(x)))) }
/// A macro's body: every parameter outside quotes replaced by its argument, in quotes where a `#` stands before it; everything else as it is.
pub open spec fn replaced(d: Defines, body: Toks, q: bool) -> Seq<Output>
    decreases body.len()
{
    if body.len() == 0 { Seq::empty() }
    else if !q && param(d, body[0]) { seq![given(d, body[0])] + replaced(d, body.skip(1), q) }
    else if !q && body[0].symbol is Directive && body.len() > 1 && param(d, body[1]) {
        seq![Output::Direct(tok(Symbol::DoubleQuote, body[0].source)), given(d, body[1]), Output::Direct(tok(Symbol::DoubleQuote, body[0].source))] + replaced(d, body.skip(2), q)
    }
    else { seq![Output::Direct(body[0])] + replaced(d, body.skip(1), if body[0].symbol is DoubleQuote { !q } else { q }) }
}
/// a body in which only parameters are expanded
pub open spec fn simple(k: Seq<char>, d: Defines, body: Toks, site: Position, q: bool) -> bool
    decreases body.len()
{
    if body.len() == 0 { true }
    else {
        let t = body[0];
        &&& !(t.symbol is Eoi) && !(t.symbol is Comment) && !(t.symbol is Newline)
        &&& outside(t, site)
        &&& !q && t.symbol is Word ==> name(t) != "__EXEC"@ && !refused(name(t)) && (param(d, t) && name(t) != k || !d.has(name(t)))
        &&& !q && t.symbol is Directive ==> body.len() > 1 ==> !dir_name(name(body[1]))
        &&& simple(k, d, body.skip(1), site, if t.symbol is DoubleQuote { !q } else { q })
    }
}
pub proof fn lemma_eoi(t: Arc<Token>)
    requires t.symbol is Eoi
    ensures !dir_name(name(t))
{
    reveal_strlit("if"); reveal_strlit("else"); reveal_strlit("endif"); reveal_strlit("ifdef"); reveal_strlit("ifndef"); reveal_strlit("define"); reveal_strlit("undef"); reveal_strlit("include"); reveal_strlit("pragma");
    assert(name(t).len() == 0);
}
/// The expansion of such a body is the body with the parameters replaced; nothing else changes.
pub proof fn theorem_substitution(site: Position, k: Seq<char>, s: St, g: Pragma, body: Toks, eoi: Arc<Token>, buf: Seq<Output>, q: bool, jw: bool)
    requires s.ifs.read(), simple(k, s.d, body, site, q), eoi.symbol is Eoi
    ensures walk_from(Some(site), Some(k), s, g, body.push(eoi), buf, q, jw, None) == Some(Out { s, g, rest: seq![eoi], buf: buf + replaced(s.d, body, q) })
    decreases body.len()
{
    broadcast use ax_arc;
    let rest = body.push(eoi);
    if body.len() == 0 { assert(rest =~= seq![eoi]); assert(buf + replaced(s.d, body, q) =~= buf); }
    else {
        let t = body[0];
        assert(rest[0] == t);
        assert(rest.skip(1) =~= body.skip(1).push(eoi));
        if !q && param(s.d, t) {
            let e = s.d.visible(name(t))->0;
            theorem_argument(site, s, g, rest, buf, e.0, e.1->Value_0);
            theorem_substitution(site, k, s, g, body.skip(1), eoi, buf.push(given(s.d, t)), q, false);
            assert(buf.push(given(s.d, t)) + replaced(s.d, body.skip(1), q) =~= buf + replaced(s.d, body, q));
        } else if !q && tk(t).symbol is Directive && body.len() > 1 && param(s.d, body[1]) {
            let b = Output::Direct(tok(Symbol::DoubleQuote, tk(t).source));
            let e = s.d.visible(name(body[1]))->0;
            let r1 = rest.skip(1);
            assert(rest[1] == body[1] && r1[0] == body[1]);
            assert(r1.skip(1) =~= body.skip(2).push(eoi));
            assert(body.skip(1).skip(1) =~= body.skip(2));
            theorem_argument(site, s, g, r1, buf.push(b), e.0, e.1->Value_0);
            let b2 = buf.push(b).push(given(s.d, body[1])).push(b);
            assert(body.skip(1)[0] == body[1]);
            assert(simple(k, s.d, body.skip(1), site, q));
            assert(simple(k, s.d, body.skip(2), site, q));
            assert(quotes_next(Some(site), Some(k), s.d, rest));
            let s1 = put(s, tok(Symbol::DoubleQuote, tk(t).source), buf);
            assert(s1 == buf.push(b));
            assert(walk_from(Some(site), Some(k), s, g, rest, buf, q, jw, None) == walk_from(Some(site), Some(k), s, g, r1, s1, q, jw, Some(tk(t).source)));
            theorem_substitution(site, k, s, g, body.skip(2), eoi, b2, q, false);
            assert(b2 + replaced(s.d, body.skip(2), q) =~= buf + replaced(s.d, body, q));
        } else {
            let q2 = if tk(t).symbol is DoubleQuote { !q } else { q };
            if body.len() > 1 { assert(rest[1] == body[1]); assert(body.skip(1)[0] == body[1]); assert(simple(k, s.d, body.skip(1), site, q2)); }
            else { assert(rest[1] == eoi); lemma_eoi(eoi); }
            let b1 = buf.push(Output::Direct(t));
            assert(put(s, t, buf) == b1);
            theorem_substitution(site, k, s, g, body.skip(1), eoi, b1, q2, if tk(t).symbol is Directive && !q { jw } else if tk(t).symbol is Word && !q { false } else { jw && tk(t).symbol is Whitespace });
            assert(b1 + replaced(s.d, body.skip(1), q2) =~= buf + replaced(s.d, body, q));
        }
    }
}
/// A use of a macro with parameters stands for its body with the parameters replaced by the arguments that were read, and leaves the definitions as reading the arguments left them.
pub proof fn theorem_use(site: Position, s: St, g: Pragma, rest: Toks, buf: Seq<Output>, e: Arc<Token>, f: FunctionDefinition, src: DefineSource)
    requires rest.len() > 1, rest[0].symbol is Word, !gen_name(name(rest[0])), rest[1].symbol is LeftParenthesis,
        s.d.visible(name(rest[0])) == Some((e, Definition::Function(f), src)), !(src is Argument), !inside(*rest[0], f), !s.exp.contains(name(rest[0])), name(rest[0]).len() <= isize::MAX, s.ifs.read(),
        args_from(site, s, g, rest.skip(2), false, 0, Seq::empty(), Seq::empty()) is Some,
        ({
            let a = args_from(site, s, g, rest.skip(2), false, 0, Seq::empty(), Seq::empty())->0;
            &&& a.args.len() == f.args@.len() && a.s.exp == s.exp && a.s.ifs.read() && a.s.d.stack@.len() < isize::MAX
            &&& simple(name(rest[0]), a.s.d.open_with(name(rest[0]), table_of(bound(f.args@, a.args, a.args.len() as int))), unjoined(f.body@), site, false)
        }),
    ensures ({
            let a = args_from(site, s, g, rest.skip(2), false, 0, Seq::empty(), Seq::empty())->0;
            let d = a.s.d.open_with(name(rest[0]), table_of(bound(f.args@, a.args, a.args.len() as int)));
            used(site, s, g, rest, buf) == Some(Out { s: a.s, g: a.g, rest: a.rest, buf: buf.push(Output::Macro(rest[0], vec_of(replaced(d, unjoined(f.body@), false)))) })
        }),
{
    broadcast use ax_vec_view, ax_vec, lemma_push_pop;
    let k = name(rest[0]);
    let a = args_from(site, s, g, rest.skip(2), false, 0, Seq::empty(), Seq::empty())->0;
    assert(rest.skip(1).skip(1) =~= rest.skip(2));
    lemma_measure(s.exp, k);
    let d = a.s.d.open_with(k, table_of(bound(f.args@, a.args, a.args.len() as int)));
    let body = unjoined(f.body@);
    let eoi = tok(Symbol::Eoi, tk(rest[0]).source);
    broadcast use ax_arc;
    theorem_substitution(site, k, St { exp: a.s.exp.push(k), d, ..a.s }, a.g, body, eoi, Seq::empty(), false, true);
    assert(Seq::<Output>::empty() + replaced(d, body, false) =~= replaced(d, body, false));
    assert(d.stack@.drop_last() =~= a.s.d.stack@);
    assert(d.closed() == a.s.d);
}
#[verifier::external_body] pub fn chained(s: Stream, t: Arc<Token>) -> (r: Stream) requires s.at() == 0 ensures r.rest() == s.rest().push(t), r.at() == 0 { unimplemented!() }
}
fn main(){}
