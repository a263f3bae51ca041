// ---------------------------------------------------------------- the rest of the processor
#[verifier::external_body] pub struct Codes { x: int }
#[verifier::external_body] pub struct Macros { x: int }
#[verifier::external_body] pub struct FunctionDefinition { x: int }
//@extract libs/preprocessor/src/definition.rs | enum Definition
//@pub
//@end
pub struct DefineSource {}
/// The definitions (unit pre_defs has the real ones)
#[verifier::external_body] pub struct Defines { x: int }
impl Defines {
    pub uninterp spec fn has(&self, name: Seq<char>) -> bool;
    /// what a token stands for, and the definitions afterwards (__COUNTER__ counts)
    pub uninterp spec fn looked(&self, t: Arc<Token>) -> Option<Definition>;
    pub uninterp spec fn after(&self, t: Arc<Token>) -> Defines;
    pub uninterp spec fn without(&self, name: Seq<char>) -> Defines;
    #[verifier::external_body] pub fn contains_key(&self, key: &str) -> (r: bool) ensures r == self.has(key@) { unimplemented!() }
    #[verifier::external_body] pub fn get_with_gen(&mut self, key: &Arc<Token>, site: Option<&Position>) -> (r: Option<(Arc<Token>, Definition, DefineSource)>)
        ensures r is Some <==> old(self).looked(*key) is Some, r is Some ==> (r->0).1 == old(self).looked(*key)->0, *final(self) == old(self).after(*key)
    { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, key: &str) -> (r: Option<(Arc<Token>, Definition, DefineSource)>) ensures *final(self) == old(self).without(key@) { unimplemented!() }
    #[verifier::external_body] pub fn is_unsupported_builtin(key: &str) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) { unimplemented!() }
}
//@extract libs/workspace/src/reporting/output.rs | enum Output
//@pub
//@end
impl Output {
    pub uninterp spec fn last_sym(&self) -> Option<Symbol>;
    #[verifier::external_body] pub fn last_is_escape(v: &Vec<Output>) -> (r: bool) ensures r ==> v@.len() > 0 { unimplemented!() }
}
pub struct Processor { pub ifstates: IfStates, pub defines: Defines, pub included_files: Vec<WorkspacePath>, pub file_stack: Vec<WorkspacePath>, pub macros: Macros, pub expanding: Vec<String>, pub warnings: Codes, pub no_rapify: bool }
macro_rules! codes { ($($n:ident ( $($a:ident : $t:ty),* );)*) => { verus!{ $( pub struct $n {} impl $n { #[verifier::external_body] pub fn code($($a: $t),*) -> Error { unimplemented!() } } )* } } }
codes! {
    UnexpectedEOF(t: Token); ExpectedIdent(t: Token); UnexpectedToken(t: Token, e: Vec<String>); UnknownDirective(t: Token); PragmaUnknown(t: Token);
    PragmaInvalidScope(t: Token, r: bool); IfHasInclude(t: Token); IfUndefined(t: Token, d: &Defines); IfUnitOrFunction(t: Token, d: &Defines);
    IfIncompatibleType(a: (Vec<Arc<Token>>, bool), b: Vec<Arc<Token>>, c: (Vec<Arc<Token>>, bool)); IfInvalidOperator(t: Vec<Token>);
    ExecNotSupported(t: Token); BuiltInNotSupported(t: Token);
}

impl Processor {
    pub open spec fn v(&self) -> Seq<Fr> { self.ifstates.v() }
    pub open spec fn wf(&self) -> bool { self.ifstates.wf() }
    /// nothing but the conditions may differ
    pub open spec fn same_but_conditions(&self, o: &Self) -> bool {
        self.defines == o.defines && self.included_files == o.included_files && self.file_stack == o.file_stack && self.macros == o.macros
            && self.expanding == o.expanding && self.warnings == o.warnings && self.no_rapify == o.no_rapify
    }
//@extract libs/preprocessor/src/processor/whitespace.rs | impl Processor @ fn skip_whitespace
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), old(stream).at() == 0
    ensures final(self).ifstates == old(self).ifstates, final(self).same_but_conditions(old(self)),
        final(stream).at() == 0, final(stream).rest() == skip_ws(old(stream).rest()),
        buffer is Some && !active(old(self).v()) ==> *final(buffer->0) == *old(buffer->0),
//@entry
    let ghost b0 = buffer;
//@loop 0 while
    invariant self.wf(), self.ifstates == old(self).ifstates, self.same_but_conditions(old(self)), stream.at() == 0,
        skip_ws(stream.rest()) == skip_ws(old(stream).rest()),
        buffer is None <==> b0 is None,
        buffer is Some ==> *final(buffer->0) == *final(b0->0),
        buffer is Some && !active(old(self).v()) ==> *buffer->0 == *b0->0,
    ensures stream.at() == 0, stream.rest() == skip_ws(old(stream).rest()),
    decreases stream.rest().len()
//@end
//@extract libs/preprocessor/src/processor/whitespace.rs | impl Processor @ fn skip_to_after_newline
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), old(stream).at() == 0
    ensures final(self).ifstates == old(self).ifstates, final(self).same_but_conditions(old(self)),
        final(stream).at() == 0, final(stream).rest() == after_nl(old(stream).rest()),
        buffer is Some && !active(old(self).v()) ==> *final(buffer->0) == *old(buffer->0),
//@entry
    let ghost b0 = buffer;
//@loop 0 while
    invariant_except_break after_nl(stream.rest()) == after_nl(old(stream).rest()),
    invariant self.wf(), self.ifstates == old(self).ifstates, self.same_but_conditions(old(self)), stream.at() == 0,
        buffer is None <==> b0 is None,
        buffer is Some ==> *final(buffer->0) == *final(b0->0),
        buffer is Some && !active(old(self).v()) ==> *buffer->0 == *b0->0,
    ensures stream.rest() == after_nl(old(stream).rest()),
    decreases stream.rest().len()
//@end
//@extract libs/preprocessor/src/processor/whitespace.rs | impl Processor @ fn expect_nothing_to_newline
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub stream\.by_ref\(\) ==> stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub vec!\["newline"\.to_string\(\)\] ==> Vec::new()
//@spec
    requires old(stream).at() == 0
    ensures final(stream).at() == 0, r is Ok <==> blank_line(old(stream).rest()), final(stream).rest() == after_blank(old(stream).rest()),
//@desugar 0
//@loop 0 for
    invariant_except_break after_blank(it0.rest()) == after_blank(old(stream).rest()), blank_line(it0.rest()) == blank_line(old(stream).rest()),
    invariant it0.at() == 0, *final(stream) == *final(it0),
    ensures it0.rest() == after_blank(old(stream).rest()), blank_line(old(stream).rest()),
    decreases it0.rest().len()
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn current_word
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@spec
    requires old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(stream).at() == 0,
        r is Ok <==> old(stream).rest()[0].symbol is Word,
        r is Ok ==> r->Ok_0 == old(stream).rest()[0],
        final(stream).rest() == if old(stream).rest()[0].symbol is Eoi { old(stream).rest() } else { old(stream).rest().skip(1) },
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn next_word
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@spec
    requires old(self).wf(), old(stream).at() == 0, skip_ws(old(stream).rest()).len() > 0
    ensures final(self).ifstates == old(self).ifstates, final(self).same_but_conditions(old(self)), final(stream).at() == 0,
        ({ let s = skip_ws(old(stream).rest());
           &&& r is Ok <==> s[0].symbol is Word
           &&& r is Ok ==> r->Ok_0 == s[0]
           &&& final(stream).rest() == if s[0].symbol is Eoi { s } else { s.skip(1) } }),
        buffer is Some && !active(old(self).v()) ==> *final(buffer->0) == *old(buffer->0),
//@end
//@extract libs/preprocessor/src/processor/mod.rs | impl Processor @ fn output
//@sub buffer\s*\.last\(\)\s*\.is_some_and\(\|t\| t\.last_symbol\(\)\.is_some_and\(Symbol::is_escape\)\) ==> Output::last_is_escape(buffer)
//@sub self\.token_count \+= 1; ==> ;
//@spec
    requires old(self).wf()
    ensures final(self).ifstates == old(self).ifstates, final(self).same_but_conditions(old(self)),
        !active(old(self).v()) || token.symbol is Comment ==> *final(buffer) == *old(buffer),
        active(old(self).v()) && !(token.symbol is Comment) ==> final(buffer)@ == old(buffer)@.push(Output::Direct(token))
            || token.symbol is Newline && old(buffer)@.len() > 0 && final(buffer)@ == old(buffer)@.drop_last(),
//@end

}
pub open spec fn ended(s: Toks) -> bool { (s.len() > 0 ==> s.last().symbol is Eoi) && forall|i: int| 0 <= i < s.len() - 1 ==> !((#[trigger] s[i]).symbol is Eoi) }
pub proof fn lemma_ended(s: Toks)
    requires ended(s)
    ensures s.len() > 0 ==> ended(s.skip(1)), s.len() > 0 && !(s[0].symbol is Eoi) ==> s.len() > 1,
        ended(skip_ws(s)), skip_ws(s).len() <= s.len(), s.len() > 0 ==> skip_ws(s).len() > 0,
        ended(after_nl(s)), after_nl(s).len() <= s.len(), s.len() > 0 ==> after_nl(s).len() < s.len(),
        ended(after_blank(s)), after_blank(s).len() <= s.len(), s.len() > 0 ==> after_blank(s).len() < s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        assert(ended(s.skip(1))) by { if s.len() > 1 { assert(s.skip(1).last() == s.last()); } assert forall|i: int| 0 <= i < s.skip(1).len() - 1 implies !((#[trigger] s.skip(1)[i]).symbol is Eoi) by { assert(s.skip(1)[i] == s[i + 1]); } }
        if s.len() == 1 { assert(s[0] == s.last()); }
        lemma_ended(s.skip(1));
    }
}
pub broadcast proof fn lemma_tail(s: Toks)
    requires ended(s), s.len() > 0
    ensures #![trigger ended(s), s.skip(1)] ended(s.skip(1)), !(s[0].symbol is Eoi) ==> s.len() > 1
{ lemma_ended(s); }
pub broadcast proof fn lemma_ws(s: Toks)
    requires ended(s)
    ensures #![trigger ended(s), skip_ws(s)] ended(skip_ws(s)), skip_ws(s).len() <= s.len(), s.len() > 0 ==> skip_ws(s).len() > 0, skip_ws(s).len() > 0 ==> !skip_ws(s)[0].symbol.ws(),
        s.len() > 0 && s[0].symbol.ws() ==> skip_ws(s).len() < s.len()
{ lemma_ended(s); lemma_skip_ws(s); }
pub broadcast proof fn lemma_nl(s: Toks)
    requires ended(s)
    ensures #![trigger ended(s), after_nl(s)] ended(after_nl(s)), after_nl(s).len() <= s.len(), s.len() > 0 ==> after_nl(s).len() < s.len()
{ lemma_ended(s); }
pub broadcast proof fn lemma_blank(s: Toks)
    requires ended(s)
    ensures #![trigger ended(s), after_blank(s)] ended(after_blank(s)), after_blank(s).len() <= s.len(), s.len() > 0 ==> after_blank(s).len() < s.len()
{ lemma_ended(s); }
pub broadcast group group_ended { lemma_tail, lemma_ws, lemma_nl, lemma_blank }
