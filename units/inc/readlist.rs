// ---------------------------------------------------------------- reading a token list
/// without leading whitespace and comments
pub open spec fn skip_ws(s: Toks) -> Toks
    decreases s.len()
{ if s.len() > 0 && s[0].symbol.ws() { skip_ws(s.skip(1)) } else { s } }
/// after the next newline
pub open spec fn after_nl(s: Toks) -> Toks
    decreases s.len()
{ if s.len() == 0 { s } else if s[0].symbol is Newline { s.skip(1) } else { after_nl(s.skip(1)) } }
/// only whitespace and comments up to the end of the line
pub open spec fn blank_line(s: Toks) -> bool
    decreases s.len()
{ if s.len() == 0 || s[0].symbol is Newline || s[0].symbol is Eoi { true } else { s[0].symbol.ws() && blank_line(s.skip(1)) } }
/// after the end of a blank line
pub open spec fn after_blank(s: Toks) -> Toks
    decreases s.len()
{ if s.len() == 0 { s } else if s[0].symbol is Newline || s[0].symbol is Eoi || !s[0].symbol.ws() { s.skip(1) } else { after_blank(s.skip(1)) } }
pub proof fn lemma_skip_ws(s: Toks)
    ensures skip_ws(s).len() <= s.len(), s.len() > 0 && s[0].symbol.ws() ==> skip_ws(s).len() < s.len(),
        skip_ws(s).len() > 0 ==> !skip_ws(s)[0].symbol.ws()
    decreases s.len()
{ if s.len() > 0 && s[0].symbol.ws() { lemma_skip_ws(s.skip(1)); } }
pub proof fn lemma_after(s: Toks)
    ensures after_nl(s).len() <= s.len(), s.len() > 0 ==> after_nl(s).len() < s.len(),
        after_blank(s).len() <= s.len(), s.len() > 0 ==> after_blank(s).len() < s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_after(s.skip(1)); } }
