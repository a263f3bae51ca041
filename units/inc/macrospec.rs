// ---------------------------------------------------------------- what preprocessing works on
#[verifier::external_body] pub struct Pragma { x: int }
#[verifier::external_body] pub struct IfStates { x: int }
impl IfStates {
    pub uninterp spec fn read(&self) -> bool;
    #[verifier::external_body] pub fn reading(&self) -> (r: bool) ensures r == self.read() { unimplemented!() }
}
/// Vec<Arc<dyn Code>>: warnings change nothing
#[verifier::external_body] pub struct Codes { x: int }
/// HashMap<String, Vec<Position>>: where each name was defined (for the language server)
#[verifier::external_body] pub struct Macros { x: int }
impl Macros { #[verifier::external_body] pub fn note(&mut self, k: &String, p: Position) ensures *final(self) == *old(self) { unimplemented!() } }
//@extract libs/workspace/src/reporting/output.rs | enum Output
//@pub
//@end
pub struct Processor { pub ifstates: IfStates, pub defines: Defines, pub included_files: Vec<WorkspacePath>, pub file_stack: Vec<WorkspacePath>, pub macros: Macros, pub expanding: Vec<String>, pub warnings: Codes, pub no_rapify: bool }
/// Everything expansion depends on.
pub struct St { pub ifs: IfStates, pub d: Defines, pub files: Vec<WorkspacePath>, pub included: Vec<WorkspacePath>, pub exp: Seq<Seq<char>>, pub no: bool }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn lemma_texts_push(v: Seq<String>, s: String)
    ensures #[trigger] texts(v.push(s)) == texts(v).push(s@)
{ assert(texts(v.push(s)) =~= texts(v).push(s@)); }
pub broadcast proof fn lemma_texts_pop(v: Seq<String>, n: int)
    requires n == v.len() - 1, n >= 0
    ensures #[trigger] texts(v.subrange(0, n)) == texts(v).drop_last()
{ assert(texts(v.subrange(0, n)) =~= texts(v).drop_last()); }
pub broadcast proof fn lemma_push_pop<T>(v: Seq<T>, x: T)
    ensures #[trigger] v.push(x).drop_last() == v
{ assert(v.push(x).drop_last() =~= v); }
impl Processor { pub open spec fn st(&self) -> St { St { ifs: self.ifstates, d: self.defines, files: self.file_stack, included: self.included_files, exp: texts(self.expanding@), no: self.no_rapify } } }
/// an outcome: the state, the pragmas, the tokens left and the output
pub struct Out { pub s: St, pub g: Pragma, pub rest: Toks, pub buf: Seq<Output> }
/// expansion puts back what it pushed: only the innermost scope of definitions may have changed
pub open spec fn kept(a: St, b: St) -> bool { b.exp == a.exp && b.d.stack@.len() == a.d.stack@.len() && (a.d.stack@.len() > 0 ==> b.d.stack@.drop_last() == a.d.stack@.drop_last() && b.d.stack@.last().0 == a.d.stack@.last().0) }
/// every token list ends with an Eoi
pub open spec fn tail_ok(s: Toks) -> bool { s.len() > 0 ==> s.last().symbol is Eoi }
/// the tokens of an output, those of macros included
pub open spec fn flat1(o: Output) -> Toks
    decreases o, 0nat
{ match o { Output::Direct(t) => seq![t], Output::Macro(_, l) => flat(l@) } }
pub open spec fn flat(l: Seq<Output>) -> Toks
    decreases l, l.len()
{ if l.len() == 0 { Seq::empty() } else { flat(l.drop_last()) + flat1(l.last()) } }
macro_rules! codes { ($($n:ident ( $($a:ident : $t:ty),* );)*) => { verus!{ $( pub struct $n {} impl $n { #[verifier::external_body] pub fn code($($a: $t),*) -> Error { unimplemented!() } } )* } } }
/// peekmore's Result of peek_backward etc. are not used
pub open spec fn name(t: Arc<Token>) -> Seq<char> { t.text() }
