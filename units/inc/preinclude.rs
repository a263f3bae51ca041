// #include: the included file starts with what it inherits, and leaves the including file's pragmas alone
impl Symbol {
    #[verifier::external_body] pub fn is_include_enclosure(&self) -> (r: bool) ensures r ==> self.encloses() { unimplemented!() }
    pub uninterp spec fn encloses(&self) -> bool;
    #[verifier::external_body] pub fn matching_enclosure(&self) -> (r: Option<Symbol>) ensures self.encloses() ==> r is Some { unimplemented!() }
}
pub struct IncludeNotEncased {}
impl IncludeNotEncased { #[verifier::external_body] pub fn code(t: Token, p: Vec<Arc<Token>>, s: Option<Token>) -> Error { unimplemented!() } }
pub struct IncludeNotFound {}
impl IncludeNotFound { #[verifier::external_body] pub fn code(p: Vec<Arc<Token>>) -> Error { unimplemented!() } }
#[verifier::external_body] pub fn suffix_error(e: Error) -> Error { unimplemented!() }
#[verifier::external_body] pub fn same_symbol(a: &Symbol, b: &Symbol) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// WorkspacePath::locate on the text between the enclosure (unit of W02); also pushes the case warning
#[verifier::external_body] pub fn locate_include(from: &WorkspacePath, path: &Vec<Arc<Token>>) -> Option<WorkspacePath> { unimplemented!() }
/// the file being read (assumed: there always is one)
#[verifier::external_body] pub fn current_file(s: &Vec<WorkspacePath>) -> &WorkspacePath { unimplemented!() }
#[verifier::external_body] pub fn parse_included(p: &WorkspacePath) -> (r: Result<Vec<Arc<Token>>, Error>) ensures r is Ok ==> ended((r->Ok_0)@) { unimplemented!() }
#[verifier::external_body] pub fn stream_over(v: Vec<Arc<Token>>) -> (r: Stream) ensures r.rest() == v@, r.at() == 0 { unimplemented!() }
impl Processor {
//@extract libs/preprocessor/src/processor/directives.rs | impl Processor @ fn directive_include
//@sub PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> Stream
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub for (\w+) in stream\.by_ref\(\) ==> while let Some(\1) = stream.next()
//@sub (?s)self\s*\.file_stack\s*\.last\(\)\s*\.expect\([^)]*\) ==> current_file(&self.file_stack)
//@sub symbol == &close ==> same_symbol(symbol, &close)
//@sub (?s)if let Err\(Error::Code\(code\)\) = Self::expect_nothing_to_newline\(stream\) \{.*?return Err\(Error::Code\(code\)\);\s*\} ==> if let Err(e_) = Self::expect_nothing_to_newline(stream) { return Err(suffix_error(e_)); }
//@sub (?s)let path = \{\s*let Ok\(Some\(LocateResult \{.*?found_path\s*\}; ==> let path = match locate_include(current, &path) { Some(p_) => p_, None => return Err(IncludeNotFound::code(path)) };
//@sub crate::parse::parse\(&path\) ==> parse_included(&path)
//@sub tokens\.into_iter\(\)\.peekmore\(\) ==> stream_over(tokens)
//@sub self\.file\( ==> self.included(&*pragma, 
//@spec
    requires old(self).wf(), active(old(self).v()), ended(old(stream).rest()), old(stream).at() == 0, old(stream).rest().len() > 0
    ensures final(self).wf(), final(stream).at() == 0, ended(final(stream).rest()), final(stream).rest().len() < old(stream).rest().len(), *final(pragma) == *old(pragma),
//@entry
    broadcast use group_ended;
//@loop 0 while
    invariant self.wf(), self.same_but_conditions(old(self)), self.ifstates == old(self).ifstates, *pragma == *old(pragma), stream.at() == 0, ended(stream.rest()), stream.rest().len() < old(stream).rest().len()
    ensures stream.rest().len() < old(stream).rest().len()
    decreases stream.rest().len()
//@end
}
