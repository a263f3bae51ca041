// ---------------------------------------------------------------- positions, symbols and tokens
/// a path of the workspace: two are the same file when their texts are the same
#[verifier::external_body] pub struct WorkspacePath { x: int }
impl WorkspacePath {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// the text of the file, without carriage returns
    pub uninterp spec fn content(&self) -> Seq<char>;
    /// reading takes the carriage returns out
    #[verifier::external_body] pub fn read_to_string(&self) -> (r: Result<String, Error>) ensures r is Ok ==> (r->Ok_0)@ == self.content() && !self.content().contains('\r') { unimplemented!() }
    /// A file whose tokens are used was read before, and is read again.
    #[verifier::external_body] pub fn read_again(&self) -> (r: String) { unimplemented!() }
}
impl Clone for WorkspacePath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Error { x: int }
/// UTF-8 length of a character
pub open spec fn width(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) } }
/// a text in memory is at most isize::MAX bytes
pub broadcast axiom fn ax_fits(s: String) ensures #[trigger] s@.len() <= isize::MAX, blen(s@) <= isize::MAX;
//@extract libs/workspace/src/position.rs | struct LineCol
//@attr #[derive(Clone, Copy)]
//@end
impl LineCol {
//@extract libs/workspace/src/position.rs | impl LineCol @ fn line
//@spec
    ensures r == (self.1).0
//@end
//@extract libs/workspace/src/position.rs | impl LineCol @ fn offset
//@spec
    ensures r == self.0
//@end
}
//@extract libs/workspace/src/position.rs | struct Position
//@pub
//@end
impl Clone for Position { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Position {
//@extract libs/workspace/src/position.rs | impl Position @ fn new
//@spec
    ensures r == (Position { start, end, path })
//@end
//@extract libs/workspace/src/position.rs | impl Position @ fn start
//@spec
    ensures *r == self.start
//@end
//@extract libs/workspace/src/position.rs | impl Position @ fn end
//@spec
    ensures *r == self.end
//@end
//@extract libs/workspace/src/position.rs | impl Position @ fn path
//@spec
    ensures *r == self.path
//@end
}
//@extract libs/workspace/src/reporting/whitespace.rs | enum Whitespace
//@pub
//@end
//@extract libs/workspace/src/reporting/symbol.rs | enum Symbol
//@pub
//@end
//@extract libs/workspace/src/reporting/token.rs | struct Token
//@pub
//@end
pub open spec fn blank(w: Whitespace) -> Seq<char> { match w { Whitespace::Space => " "@, Whitespace::Tab => "\t"@ } }
/// The source text of a symbol; a comment has none.
pub open spec fn text_of(s: Symbol) -> Seq<char> {
    match s {
        Symbol::Word(w) => w@, Symbol::Alpha(c) => seq![c], Symbol::Digit(d) => dec(d as nat), Symbol::Underscore => "_"@, Symbol::Dash => "-"@,
        Symbol::Equals => "="@, Symbol::Plus => "+"@, Symbol::LeftBrace => "{"@, Symbol::RightBrace => "}"@, Symbol::LeftBracket => "["@,
        Symbol::RightBracket => "]"@, Symbol::LeftParenthesis => "("@, Symbol::RightParenthesis => ")"@, Symbol::Colon => ":"@,
        Symbol::Semicolon => ";"@, Symbol::Join => "##"@, Symbol::Directive => "#"@, Symbol::Escape => "\\"@, Symbol::Slash => "/"@,
        Symbol::Comma => ","@, Symbol::Decimal => "."@, Symbol::DoubleQuote => "\""@, Symbol::SingleQuote => "'"@, Symbol::LeftAngle => "<"@,
        Symbol::RightAngle => ">"@, Symbol::Unicode(s) => s@, Symbol::Newline => "\n"@, Symbol::Whitespace(w) => blank(w),
        Symbol::Comment(_) => Seq::empty(), Symbol::Eoi => Seq::empty(),
    }
}
impl Disp for Symbol { open spec fn shown(&self) -> Seq<char> { text_of(*self) } }
impl Disp for Whitespace { open spec fn shown(&self) -> Seq<char> { blank(*self) } }
#[verifier::external_body] pub fn no_way() -> (r: &'static str) requires false { unimplemented!() }
/// ToString for what has Display
#[verifier::external_body] pub fn shown_text(s: &Symbol) -> (r: String) ensures r@ == text_of(*s) { unimplemented!() }
impl Whitespace {
//@extract libs/workspace/src/reporting/whitespace.rs | impl Display for Whitespace @ fn fmt
//@sub std::fmt::Result ==> Result<(), ()>
//@sub &mut std::fmt::Formatter<'_> ==> &mut Formatter
//@fmt
//@spec
    ensures final(f).out() == old(f).out() + blank(*self)
//@exit
    proof { assert(f.out() =~= old(f).out() + blank(*self)); }
//@end
}
impl Symbol {
//@extract libs/workspace/src/reporting/symbol.rs | impl Display for Symbol @ fn fmt
//@sub std::fmt::Result ==> Result<(), ()>
//@sub &mut std::fmt::Formatter<'_> ==> &mut Formatter
//@sub unreachable!\(\) ==> no_way()
//@sub Self::Unicode\(s\) => s, ==> Self::Unicode(s) => s.as_str(),
//@sub Self::Newline => "\\n" ==> Self::Newline => "\n"
//@fmt
//@spec
    ensures final(f).out() == old(f).out() + text_of(*self)
//@entry
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) =~= a); }
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_double_quote
//@spec
    ensures r == (self is DoubleQuote)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_single_quote
//@spec
    ensures r == (self is SingleQuote)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_newline
//@spec
    ensures r == (self is Newline)
//@end
}
impl Token {
    pub open spec fn text(&self) -> Seq<char> { text_of(self.symbol) }
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn new
//@spec
    ensures r == (Token { symbol, source })
//@end
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn symbol
//@spec
    ensures *r == self.symbol
//@end
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn position
//@spec
    ensures *r == self.source
//@end
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn to_source
//@sub self\.symbol\.to_string\(\) ==> shown_text(&self.symbol)
//@spec
    ensures r@ == self.text()
//@end
}
