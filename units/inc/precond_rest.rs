// conditional directives, lines and files
//@include inc/preinclude.rs
impl Processor {
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_if
//@hoist read_value
//@hoist resolve_value
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub stream\.peek\(\)\.map\(\|t\| t\.symbol\(\)\) == Some\(&Symbol::Newline\) ==> at_newline(stream.peek())
//@sub &Symbol::Word\(String::from\(("__has_include")\)\)\s*==\s*left\s*\.first\(\)\s*\.expect\((".*?")\)\s*\.symbol\(\) ==> word_is(left.first().expect(\2).symbol(), \1)
//@sub \b(left|right)\s*\.into_iter\(\)\s*\.next\(\)\s*\.expect\((".*?")\) ==> first_of(\1)
//@sub (\w+)\s*\.iter\(\)\s*\.map\(std::string::ToString::to_string\)\s*\.collect::<String>\(\) ==> texts(&\1)
//@sub operators\.iter\(\)\.map\(\|t\| t\.as_ref\(\)\.clone\(\)\)\.collect\(\) ==> Vec::new()
//@sub (\w+)\.parse::<f64>\(\) ==> parse_num(&\1)
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@spec
    requires old(self).wf(), active(old(self).v()), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() <= old(stream).rest().len(),
        r is Ok ==> condition(old(self).defines, pragma.flagged(Flag::Pe23IgnoreIfHasInclude), old(stream).rest()) is Some
            && final(self).v() == opened(old(self).v(), condition(old(self).defines, pragma.flagged(Flag::Pe23IgnoreIfHasInclude), old(stream).rest())),
//@entry
    broadcast use group_ended, lemma_value, ax_text, lemma_text1, lemma_text2;
    proof { reveal_strlit("="); reveal_strlit("=="); lits_ops(); }
    let ghost s0 = stream.rest();
//@end
    #[verifier::external_body] pub fn define_use(&mut self, callsite: &Position, pragma: &mut Pragma, stream: &mut Stream, buffer: &mut Vec<Output>) -> (r: Result<(), Error>)
        requires old(self).wf(), active(old(self).v()), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
        ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() < old(stream).rest().len(), final(buffer)@.len() >= old(buffer)@.len()
    { unimplemented!() }
    /// `file` on the included file (the recursive call, same contract)
    #[verifier::external_body] pub fn included(&mut self, from: &Pragma, pragma: &mut Pragma, stream: &mut Stream, buffer: &mut Vec<Output>) -> (r: Result<(), Error>)
        requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0
        ensures final(self).wf()
    { unimplemented!() }
    #[verifier::external_body] pub fn directive_define(&mut self, stream: &mut Stream) -> (r: Result<(), Error>)
        requires old(self).wf(), active(old(self).v()), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
        ensures final(self).ifstates == old(self).ifstates, final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() < old(stream).rest().len()
    { unimplemented!() }
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_ifdef
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@spec
    requires old(self).wf(), active(old(self).v()), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(self).wf(), final(self).same_but_conditions(old(self)), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() <= old(stream).rest().len(),
        r is Ok ==> skip_ws(old(stream).rest())[0].symbol is Word
            && final(self).v() == opened(old(self).v(), Some(old(self).defines.has(skip_ws(old(stream).rest())[0].text()) == outcome))
            && blank_line(skip_ws(old(stream).rest()).skip(1)) && final(stream).rest() == after_blank(skip_ws(old(stream).rest()).skip(1)),
//@entry
    broadcast use group_ended;
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_undef
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@spec
    requires old(self).wf(), active(old(self).v()), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(self).ifstates == old(self).ifstates, final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() <= old(stream).rest().len(),
        r is Ok ==> skip_ws(old(stream).rest())[0].symbol is Word && final(self).defines == old(self).defines.without(skip_ws(old(stream).rest())[0].text()),
//@entry
    broadcast use group_ended;
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn read_pragma
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub (?s)stream\s*\.peek\(\)\s*\.(?:is_none_or\(|map_or\(true, )\|t\| t\.symbol\(\)\.is_newline\(\) \|\| t\.symbol\(\)\.is_eoi\(\)\) ==> at_line_end(stream.peek())
//@sub "line"\.to_string\(\) ==> string_of("line")
//@sub pragma\.root ==> false
//@sub Scope::try_from\( ==> scope_try_from(
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(self).ifstates == old(self).ifstates, final(self).same_but_conditions(old(self)), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() <= old(stream).rest().len(),
//@entry
    broadcast use group_ended;
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_command
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub (self\.next_word\(stream, None\)\?\.to_string\(\)) != ==> \1.as_str() !=
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 1, old(stream).rest()[0].symbol is Word
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() < old(stream).rest().len(),
        // in an inactive branch nothing happens except that conditions nest
        !active(old(self).v()) ==> final(self).same_but_conditions(old(self)),
        !active(old(self).v()) ==> *final(buffer) == *old(buffer),
        !active(old(self).v()) ==> *final(pragma) == *old(pragma),
        !active(old(self).v()) && r is Ok ==> Some(final(self).v()) == inactive_step(old(self).v(), old(stream).rest()[0].text()),
        // in an active one the conditions do what they say
        active(old(self).v()) && r is Ok ==> active_step(old(self).v(), final(self).v(), old(self).defines, old(pragma).flagged(Flag::Pe23IgnoreIfHasInclude), old(stream).rest()),
        is_condition(old(stream).rest()[0].text()) && active(old(self).v()) ==> *final(buffer) == *old(buffer) && *final(pragma) == *old(pragma),
//@entry
    broadcast use group_ended;
    proof { lits_cond(); }
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() <= old(stream).rest().len(),
        r is Ok ==> r->Ok_0 == is_directive(old(stream).rest()),
        !is_directive(old(stream).rest()) ==> r is Ok && *final(self) == *old(self) && *final(buffer) == *old(buffer) && *final(pragma) == *old(pragma)
            && final(stream).rest() == if old(stream).rest().len() > 0 && old(stream).rest()[0].symbol is Directive { old(stream).rest().skip(1) } else { old(stream).rest() },
        is_directive(old(stream).rest()) ==> final(stream).rest().len() < old(stream).rest().len(),
        !active(old(self).v()) ==> final(self).same_but_conditions(old(self)),
        !active(old(self).v()) ==> *final(buffer) == *old(buffer),
        !active(old(self).v()) ==> *final(pragma) == *old(pragma),
        is_directive(old(stream).rest()) && !active(old(self).v()) && r is Ok ==> Some(final(self).v()) == inactive_step(old(self).v(), old(stream).rest()[1].text()),
        is_directive(old(stream).rest()) && active(old(self).v()) && r is Ok ==> active_step(old(self).v(), final(self).v(), old(self).defines, old(pragma).flagged(Flag::Pe23IgnoreIfHasInclude), old(stream).rest().skip(1)),
//@entry
    broadcast use group_ended;
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn line
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0, !(old(stream).rest()[0].symbol is Eoi)
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()),
        r is Ok ==> final(stream).rest().len() < old(stream).rest().len(),
        !active(old(self).v()) ==> *final(buffer) == *old(buffer) && final(self).same_but_conditions(old(self)),
        !active(old(self).v()) && r is Ok ==> ({ let s = skip_ws(old(stream).rest());
            if is_directive(s) { Some(final(self).v()) == inactive_step(old(self).v(), s[1].text()) && *final(pragma) == *old(pragma) } else { final(self).v() == old(self).v() && *final(pragma) == old(pragma).after_line() } }),
        active(old(self).v()) && r is Ok ==> ({ let s = skip_ws(old(stream).rest());
            is_directive(s) ==> active_step(old(self).v(), final(self).v(), old(self).defines, old(pragma).flagged(Flag::Pe23IgnoreIfHasInclude), s.skip(1)) }),
//@entry
    broadcast use group_ended;
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn file
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0
    ensures final(self).wf(),
//@loop 0 loop
    invariant self.wf(), ended(stream.rest()), stream.at() == 0
    decreases stream.rest().len()
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn run
//@sub Self::default\(\) ==> Processor::fresh()
//@sub crate::parse::parse\(path\)\.map_err\(\|e\| \(processor\.included_files\.clone\(\), e\)\) ==> parse_file(path)
//@sub tokens\.into_iter\(\)\.peekmore\(\) ==> stream_of(tokens)
//@sub processor\s*\.file\(&mut pragma, &mut stream, &mut buffer\)\s*\.map_err\(\|e\| \(processor\.included_files\.clone\(\), e\)\) ==> with_files(processor.file(&mut pragma, &mut stream, &mut buffer))
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub path\.filename\(\) == "Config\.cpp" ==> any_bool()
//@sub processor\s*\.warnings\s*\.push\(Arc::new\(InvalidConfigCase::new\(path\.clone\(\)\)\)\) ==> ()
//@sub (?s)Processed::new\(.*?\)\s*\.map_err\(\|e\| \(processor\.included_files, e\.into\(\)\)\) ==> finish(&processor, buffer)
//@spec
//@end
    #[verifier::external_body] pub fn fresh() -> (r: Self) ensures r.wf(), r.v().len() == 0 { unimplemented!() }
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn walk
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \(\*\*token\)\.clone\(\) ==> token.tok()
//@sub callsite\.unwrap_or_else\(\|\| token\.position\(\)\) ==> match callsite { Some(c_) => c_, None => token.position() }
//@sub \[([^\]]*)\]\s*\.contains\(&command\.to_string\(\)\.as_str\(\)\) ==> any_of(&[\1], &command.to_string())
//@sub if in_macro\.is_some\(\)\s*&& (?s:.*?)\.start\(\)\.0\) ==> if any_bool()
//@sub Some\(w\.as_str\(\)\) != in_macro ==> differs(w, in_macro)
//@sub let mut quote = None; ==> let mut quote: Option<Position> = None;
//@spec
    requires old(self).wf(), ended(old(stream).rest()), old(stream).at() == 0
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() <= old(stream).rest().len(),
        r is Ok && old(stream).rest().len() > 0 && !(old(stream).rest()[0].symbol is Eoi) ==> final(stream).rest().len() < old(stream).rest().len(),
//@loop 0 while
    invariant self.wf(), ended(stream.rest()), stream.at() == 0, stream.rest().len() <= old(stream).rest().len(),
        stream.rest() == old(stream).rest() || stream.rest().len() < old(stream).rest().len(),
    ensures stream.rest().len() == 0
    decreases stream.rest().len()
//@entry
    broadcast use group_ended;
//@end
}
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_if @ fn read_value
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(stream).at() == 0
    ensures final(stream).at() == 0, r@ == value(old(stream).rest()), final(stream).rest() == after_value(old(stream).rest())
//@loop 0 while
    invariant_except_break tokens@ + value(stream.rest()) == value(old(stream).rest()), after_value(stream.rest()) == after_value(old(stream).rest()),
    invariant stream.at() == 0
    ensures tokens@ == value(old(stream).rest()), stream.rest() == after_value(old(stream).rest())
    decreases stream.rest().len()
//@loopend 0
    proof { assert(tokens@ + value(stream.rest()) =~= value(old(stream).rest())); }
//@end
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_if @ fn resolve_value
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@spec
    ensures r is Ok <==> resolved1(*old(defines), token) is Some,
        r is Ok ==> Some(((r->Ok_0).0@, (r->Ok_0).1)) == resolved1(*old(defines), token), *final(defines) == old(defines).after(token)
//@exit
    proof { if tailv is Ok { assert((tailv->Ok_0).0@ =~= seq![token]); } }
//@end
/// the tokens up to the next whitespace or newline
pub open spec fn value(s: Toks) -> Toks
    decreases s.len()
{ if s.len() == 0 || s[0].symbol.ws() || s[0].symbol is Newline { Seq::empty() } else { seq![s[0]] + value(s.skip(1)) } }
pub open spec fn after_value(s: Toks) -> Toks
    decreases s.len()
{ if s.len() == 0 || s[0].symbol.ws() || s[0].symbol is Newline { s } else { after_value(s.skip(1)) } }
pub broadcast proof fn lemma_value(s: Toks)
    requires ended(s)
    ensures #![trigger ended(s), after_value(s)] ended(after_value(s)), after_value(s).len() <= s.len()
    decreases s.len()
{ lemma_ended(s); if s.len() > 0 { lemma_value(s.skip(1)); } }
/// what the tokens of one side stand for, and whether they were a definition: a single name is replaced by its value
pub open spec fn resolved(d: Defines, l: Toks) -> Option<(Toks, bool)> { if l.len() == 1 { resolved1(d, l[0]) } else { Some((l, false)) } }
pub open spec fn resolved1(d: Defines, t: Arc<Token>) -> Option<(Toks, bool)> {
    match d.looked(t) { Some(Definition::Value(ts)) => Some((ts@, true)), Some(_) => None, None => Some((seq![t], false)) }
}
pub broadcast proof fn lemma_text1(s: Toks)
    requires s.len() == 1
    ensures #[trigger] text_all(s) == s[0].text()
{ assert(text_all(s.drop_last()) =~= Seq::<char>::empty()); assert(text_all(s) =~= s[0].text()); }
pub broadcast proof fn lemma_text2(s: Toks)
    requires s.len() == 2
    ensures #[trigger] text_all(s) == s[0].text() + s[1].text()
{ lemma_text1(s.drop_last()); }
pub open spec fn resolved_after(d: Defines, l: Toks) -> Defines { if l.len() == 1 { d.after(l[0]) } else { d } }
pub uninterp spec fn number(s: Seq<char>) -> Option<Num>;
pub uninterp spec fn num_cmp(a: Num, b: Num) -> Option<std::cmp::Ordering>;
/// the comparison: text for == and !=, numbers for the others
pub open spec fn compared(op: Seq<char>, l: Seq<char>, r: Seq<char>) -> Option<bool> {
    if op == "=="@ { Some(l == r) }
    else if op == "!="@ { Some(l != r) }
    else if op == ">"@ || op == ">="@ || op == "<"@ || op == "<="@ {
        if number(l) is Some && number(r) is Some {
            let c = num_cmp(number(l)->0, number(r)->0);
            Some(if op == ">"@ { c == Some(std::cmp::Ordering::Greater) }
                else if op == ">="@ { c == Some(std::cmp::Ordering::Greater) || c == Some(std::cmp::Ordering::Equal) }
                else if op == "<"@ { c == Some(std::cmp::Ordering::Less) }
                else { c == Some(std::cmp::Ordering::Less) || c == Some(std::cmp::Ordering::Equal) })
        } else { None }
    } else { None }
}
/// what `#if` with the tokens `s` after it evaluates to (None: an error)
pub open spec fn condition(d: Defines, ignore_has_include: bool, s: Toks) -> Option<bool> {
    let s1 = skip_ws(s);
    let l = value(s1);
    let t = skip_ws(after_value(s1));
    let d1 = resolved_after(d, l);
    if l.len() > 0 && l[0].symbol is Word && l[0].symbol->Word_0@ == "__has_include"@ { if ignore_has_include { Some(false) } else { None } }
    else if resolved(d, l) is None || (resolved(d, l)->0).0.len() == 0 { None }
    else if t.len() > 0 && t[0].symbol is Newline {
        // `#if X`: X == 1
        if (resolved(d, l)->0).1 { Some(text_all((resolved(d, l)->0).0) == "1"@) } else { None }
    } else {
        let op = value(t);
        let r = value(skip_ws(after_value(t)));
        if r.len() == 0 || resolved(d1, r) is None { None }
        else { compared(text_all(op), text_all((resolved(d, l)->0).0), text_all((resolved(d1, r)->0).0)) }
    }
}
#[verifier::external_body] pub struct Num { x: f64 }
impl PartialEq for Num { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { self.x == o.x } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Num {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Num) -> bool { num_cmp(*self, *other) == Some(std::cmp::Ordering::Equal) }
}
impl PartialOrd for Num { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.x.partial_cmp(&o.x) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Num {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Num) -> Option<std::cmp::Ordering> { num_cmp(*self, *other) }
}
/// str::parse::<f64>, f64 comparison: uninterpreted
#[verifier::external_body] pub fn parse_num(s: &String) -> (r: Result<Num, ()>) ensures r is Ok <==> number(s@) is Some, r is Ok ==> Some(r->Ok_0) == number(s@) { unimplemented!() }
#[verifier::external_body] pub fn at_newline(o: Option<&Arc<Token>>) -> (r: bool) ensures r == (o is Some && o->0.symbol is Newline) { unimplemented!() }
#[verifier::external_body] pub fn word_is(s: &Symbol, w: &str) -> (r: bool) ensures r == (*s is Word && s->Word_0@ == w@) { unimplemented!() }
#[verifier::external_body] pub fn first_of(v: Vec<Arc<Token>>) -> (r: Arc<Token>) requires v@.len() > 0 ensures r == v@[0] { unimplemented!() }
pub proof fn lits_ops()
    ensures "=="@ != "!="@, "=="@.len() == 2, "=="@ == "="@ + "="@,
{ reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("="); assert("=="@[0] == '='); assert("!="@[0] == '!'); assert("=="@ =~= "="@ + "="@); }
/// what a directive line is
pub open spec fn is_directive(s: Toks) -> bool { s.len() > 1 && s[0].symbol is Directive && s[1].symbol is Word }
pub open spec fn is_condition(w: Seq<char>) -> bool { w == "if"@ || w == "ifdef"@ || w == "ifndef"@ || w == "else"@ || w == "endif"@ }
/// what the directive named `w` does inside an inactive branch (None: an error)
pub open spec fn inactive_step(v: Seq<Fr>, w: Seq<char>) -> Option<Seq<Fr>> {
    if w == "if"@ || w == "ifdef"@ || w == "ifndef"@ { Some(opened(v, None)) } else if w == "else"@ { flipped(v) } else if w == "endif"@ { Some(closed(v)) } else { Some(v) }
}
/// what it does in an active one; `s` starts at the directive's name
pub open spec fn active_step(v: Seq<Fr>, n: Seq<Fr>, d: Defines, f: bool, s: Toks) -> bool {
    let w = s[0].text();
    let t = skip_ws(s.skip(1));
    if w == "ifdef"@ { t[0].symbol is Word && n == opened(v, Some(d.has(t[0].text()))) }
    else if w == "ifndef"@ { t[0].symbol is Word && n == opened(v, Some(!d.has(t[0].text()))) }
    else if w == "if"@ { condition(d, f, s.skip(1)) is Some && n == opened(v, condition(d, f, s.skip(1))) }
    else if w == "else"@ { Some(n) == flipped(v) }
    else if w == "endif"@ { n == closed(v) }
    else if w == "include"@ { true }
    else { n == v }
}
pub proof fn lits_cond()
    ensures "if"@ != "ifdef"@, "if"@ != "ifndef"@, "ifdef"@ != "ifndef"@, "else"@ != "endif"@, "else"@ != "if"@, "else"@ != "ifdef"@, "else"@ != "ifndef"@, "endif"@ != "if"@, "endif"@ != "ifdef"@, "endif"@ != "ifndef"@,
        "include"@ != "if"@, "include"@ != "ifdef"@, "include"@ != "ifndef"@, "include"@ != "else"@, "include"@ != "endif"@,
        "define"@ != "if"@, "define"@ != "ifdef"@, "define"@ != "ifndef"@, "define"@ != "else"@, "define"@ != "endif"@, "define"@ != "include"@,
        "undef"@ != "if"@, "undef"@ != "ifdef"@, "undef"@ != "ifndef"@, "undef"@ != "else"@, "undef"@ != "endif"@, "undef"@ != "include"@,
        "pragma"@ != "if"@, "pragma"@ != "ifdef"@, "pragma"@ != "ifndef"@, "pragma"@ != "else"@, "pragma"@ != "endif"@, "pragma"@ != "include"@,
{
    reveal_strlit("if"); reveal_strlit("ifdef"); reveal_strlit("ifndef"); reveal_strlit("else"); reveal_strlit("endif"); reveal_strlit("include"); reveal_strlit("define"); reveal_strlit("undef"); reveal_strlit("pragma");
    assert("if"@.len() == 2 && "ifdef"@.len() == 5 && "ifndef"@.len() == 6 && "else"@.len() == 4 && "endif"@.len() == 5 && "include"@.len() == 7 && "define"@.len() == 6 && "undef"@.len() == 5 && "pragma"@.len() == 6);
    assert("ifdef"@[0] == 'i' && "endif"@[0] == 'e' && "undef"@[0] == 'u' && "ifndef"@[0] == 'i' && "define"@[0] == 'd' && "pragma"@[0] == 'p');
}
