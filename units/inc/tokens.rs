// Symbols, tokens and the token stream of the preprocessor.
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Whitespace { x: int }
#[verifier::external_body] pub struct Position { x: int }
impl Clone for Position { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct WorkspacePath { x: int }
impl Clone for WorkspacePath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Error { x: int }

//@extract libs/workspace/src/reporting/symbol.rs | enum Symbol
//@pub
//@end
//@extract libs/workspace/src/reporting/token.rs | struct Token
//@pub
//@end
impl Clone for Symbol { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn text_of(s: Symbol) -> Seq<char>;
/// what Display prints for the symbols whose text matters here (assumed)
pub broadcast axiom fn ax_text(s: Symbol)
    ensures #![trigger text_of(s)]
        s is Word ==> text_of(s) == s->Word_0@,
        s is Equals ==> text_of(s) == "="@,
        s is Digit && s->Digit_0 == 1 ==> text_of(s) == "1"@,
        s is Comment || s is Eoi ==> text_of(s) == Seq::<char>::empty();
impl Symbol {
    pub open spec fn ws(&self) -> bool { self is Whitespace || self is Comment }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == text_of(*self) { unimplemented!() }
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_word
//@spec
    ensures r == (self is Word)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_whitespace
//@spec
    ensures r == self.ws()
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_newline
//@spec
    ensures r == (self is Newline)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_escape
//@spec
    ensures r == (self is Escape)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_directive
//@spec
    ensures r == (self is Directive)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_left_paren
//@spec
    ensures r == (self is LeftParenthesis)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_right_paren
//@spec
    ensures r == (self is RightParenthesis)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_comma
//@spec
    ensures r == (self is Comma)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_eoi
//@spec
    ensures r == (self is Eoi)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_comment
//@spec
    ensures r == (self is Comment)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_double_quote
//@spec
    ensures r == (self is DoubleQuote)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_join
//@spec
    ensures r == (self is Join)
//@end
}
impl Token {
    pub open spec fn text(&self) -> Seq<char> { text_of(self.symbol) }
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn new
//@spec
    ensures r.symbol == symbol, r.source == source
//@end
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn symbol
//@spec
    ensures *r == self.symbol
//@end
//@extract libs/workspace/src/reporting/token.rs | impl Token @ fn position
//@spec
    ensures *r == self.source
//@end
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    /// `.as_ref().clone()`
    #[verifier::external_body] pub fn tok(&self) -> (r: Token) ensures r == *self { unimplemented!() }
}
pub type Toks = Seq<Arc<Token>>;
/// the text of a token list
pub open spec fn text_all(s: Toks) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { text_all(s.drop_last()) + s.last().text() } }
/// `v.iter().map(ToString::to_string).collect::<String>()`
#[verifier::external_body] pub fn texts(v: &Vec<Arc<Token>>) -> (r: String) ensures r@ == text_all(v@) { unimplemented!() }

//@include inc/stream.rs
//@include inc/readlist.rs
