// the kinds of symbols
impl Symbol {
    pub open spec fn ws(&self) -> bool { self is Whitespace || self is Comment }
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_word
//@spec
    ensures r == (self is Word)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_whitespace
//@spec
    ensures r == (self is Whitespace || self is Comment)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_escape
//@spec
    ensures r == (self is Escape)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_directive
//@spec
    ensures r == (self is Directive)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_left_paren
//@spec
    ensures r == (self is LeftParenthesis)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_right_paren
//@spec
    ensures r == (self is RightParenthesis)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_comma
//@spec
    ensures r == (self is Comma)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_eoi
//@spec
    ensures r == (self is Eoi)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_comment
//@spec
    ensures r == (self is Comment)
//@end
//@extract libs/workspace/src/reporting/symbol.rs | impl Symbol @ fn is_join
//@spec
    ensures r == (self is Join)
//@end
}
