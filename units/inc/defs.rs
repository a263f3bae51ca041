// ---------------------------------------------------------------- definitions (libs/preprocessor/src/defines.rs, definition.rs)
pub type Toks = Seq<Arc<Token>>;
pub open spec fn tk(a: Arc<Token>) -> Token { *a }
/// Arc<str>
#[verifier::external_body] pub struct Name { x: int }
impl Name { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn name_of(s: &str) -> (r: Name) ensures r@ == s@ { unimplemented!() }
pub uninterp spec fn mk_name(k: Seq<char>) -> Name;
pub broadcast axiom fn ax_name(n: Name) ensures mk_name(#[trigger] n@) == n;
#[verifier::external_body] pub fn same_name(a: &Name, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// A vector, a string and a hash table are their contents.
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
/// (a vector holds any sequence that fits)
pub broadcast axiom fn ax_vec_view<T>(s: Seq<T>) ensures s.len() <= isize::MAX ==> #[trigger] vec_of(s)@ == s;
pub broadcast axiom fn ax_stack_fits(d: Defines) ensures #[trigger] d.stack@.len() <= isize::MAX;
pub broadcast axiom fn ax_table_view(m: Map<Seq<char>, Entry>) ensures #[trigger] table_of(m)@ == m;
pub uninterp spec fn table_of(m: Map<Seq<char>, Entry>) -> InnerDefines;
pub broadcast axiom fn ax_table(i: InnerDefines) ensures table_of(#[trigger] i@) == i;
impl PartialEq for WorkspacePath { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for WorkspacePath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &WorkspacePath) -> bool { self.text() == o.text() }
}
pub type Entry = (Arc<Token>, Definition, DefineSource);
/// HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)> (assumed contract)
#[verifier::external_body] pub struct InnerDefines { x: int }
impl InnerDefines {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Entry>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Entry>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Entry>) ensures r is Some <==> self@.dom().contains(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Name, v: Entry) -> (r: Option<Entry>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<Entry>) ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.dom().contains(k@), r is Some ==> r->0 == old(self)@[k@] { unimplemented!() }
}
#[verifier::external_body] pub fn entry_clone(e: &Entry) -> (r: Entry) ensures r == *e { unimplemented!() }
//@extract libs/preprocessor/src/definition.rs | struct FunctionDefinition
//@pub
//@end
//@extract libs/preprocessor/src/definition.rs | enum Definition
//@pub
//@end
//@extract libs/preprocessor/src/defines.rs | enum DefineSource
//@pub
//@end
impl PartialEq for DefineSource { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DefineSource {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DefineSource) -> bool { match (*self, *o) { (DefineSource::Source(a), DefineSource::Source(b)) => a == b, (DefineSource::Generated, DefineSource::Generated) => true, (DefineSource::Argument, DefineSource::Argument) => true, _ => false } }
}
//@extract libs/preprocessor/src/defines.rs | struct Defines
//@pub
//@sub Arc<str> ==> Name
//@end
/// Without the joins: `a##b` is `ab`.
pub open spec fn unjoined(s: Toks) -> Toks
    decreases s.len()
{ if s.len() == 0 { s } else if s[0].symbol is Join { unjoined(s.skip(1)) } else { seq![s[0]] + unjoined(s.skip(1)) } }
/// Iterator over the tokens of a vector, with `filter` and `chain(once)` (assumed contract)
#[verifier::external_body] pub struct TokIt { x: int }
impl TokIt {
    pub uninterp spec fn s(&self) -> Toks;
    /// what the predicate holds for is kept, in order
    #[verifier::external_body] pub fn filter<F: Fn(&Arc<Token>) -> bool>(self, f: F) -> (r: Self)
        requires forall|t: &Arc<Token>| #[trigger] f.requires((t,)),
        ensures forall|p: spec_fn(Arc<Token>) -> bool| (forall|t: Arc<Token>, b: bool| f.ensures((&t,), b) ==> b == p(t)) ==> r.s() == #[trigger] self.s().filter(p),
    { unimplemented!() }
    #[verifier::external_body] pub fn chain_once(self, t: Arc<Token>) -> (r: Self) ensures r.s() == self.s().push(t) { unimplemented!() }
    #[verifier::external_body] pub fn collect(self) -> (r: Vec<Arc<Token>>) ensures r@ == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn peekmore(self) -> (r: Stream) ensures r.rest() == self.s(), r.at() == 0 { unimplemented!() }
}
#[verifier::external_body] pub fn tok_it(v: Vec<Arc<Token>>) -> (r: TokIt) ensures r.s() == v@ { unimplemented!() }
#[verifier::external_body] pub fn toks_clone(v: &Vec<Arc<Token>>) -> (r: Vec<Arc<Token>>) ensures r@ == v@ { unimplemented!() }
pub open spec fn not_join() -> spec_fn(Arc<Token>) -> bool { |t: Arc<Token>| !(t.symbol is Join) }
pub proof fn lemma_unjoined(s: Toks)
    ensures s.filter(not_join()) == unjoined(s)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_unjoined(s.skip(1));
        assert(s =~= seq![s[0]] + s.skip(1));
        Seq::filter_distributes_over_add(seq![s[0]], s.skip(1), not_join());
        assert(seq![s[0]].drop_last() =~= Seq::<Arc<Token>>::empty());
        assert(seq![s[0]].drop_last().filter(not_join()) =~= Seq::<Arc<Token>>::empty());
        assert(seq![s[0]].filter(not_join()) =~= if not_join()(s[0]) { seq![s[0]] } else { Seq::empty() });
        assert(Seq::<Arc<Token>>::empty() + unjoined(s.skip(1)) =~= unjoined(s.skip(1)));
    }
}
impl FunctionDefinition {
//@extract libs/preprocessor/src/definition.rs | impl FunctionDefinition @ fn new
//@spec
    ensures r.position == position, r.args == args, r.body == body
//@end
//@extract libs/preprocessor/src/definition.rs | impl FunctionDefinition @ fn args
//@spec
    ensures r@ == self.args@
//@end
//@extract libs/preprocessor/src/definition.rs | impl FunctionDefinition @ fn position
//@spec
    ensures *r == self.position
//@end
//@extract libs/preprocessor/src/definition.rs | impl FunctionDefinition @ fn stream
//@sub -> PeekMoreIterator<impl Iterator<Item = Arc<Token>>> ==> -> Stream
//@sub self\s*\.body\s*\.clone\(\)\s*\.into_iter\(\) ==> tok_it(toks_clone(&self.body))
//@sub \.filter\(\|t\| (.*?)\)\s*\.peekmore ==> .filter(|t: &Arc<Token>| -> (b: bool) ensures b == !(t.symbol is Join) { \1 }).peekmore
//@spec
    ensures r.rest() == unjoined(self.body@), r.at() == 0
//@exit
    proof { lemma_unjoined(self.body@); assert(tailv.rest() == self.body@.filter(not_join())); }
//@end
}
// ---------------------------------------------------------------- which definition a name has
pub open spec fn gen_name(k: Seq<char>) -> bool { k == "__COUNTER__"@ || k == "__COUNTER_RESET__"@ || k == "__FILE__"@ || k == "__FILE_NAME__"@ || k == "__FILE_SHORT__"@ || k == "__LINE__"@ }
impl Defines {
    /// A parameter of the macro being expanded hides a definition of the same name.
    pub open spec fn visible(&self, k: Seq<char>) -> Option<Entry> {
        if self.stack@.len() > 0 && self.stack@.last().1@.dom().contains(k) { Some(self.stack@.last().1@[k]) }
        else if self.global@.dom().contains(k) { Some(self.global@[k]) } else { None }
    }
    /// The name of the macro being expanded is not a macro while it is.
    pub open spec fn has(&self, k: Seq<char>) -> bool { gen_name(k) || (!(self.stack@.len() > 0 && self.stack@.last().0@ == k) && self.visible(k) is Some) }
    /// definitions made while a macro is expanded belong to that use
    pub open spec fn with(&self, k: Seq<char>, e: Entry) -> Defines {
        if self.stack@.len() > 0 { Defines { stack: vec_of(self.stack@.update(self.stack@.len() - 1, (self.stack@.last().0, table_of(self.stack@.last().1@.insert(k, e))))), ..*self } }
        else { Defines { global: table_of(self.global@.insert(k, e)), ..*self } }
    }
    pub open spec fn without(&self, k: Seq<char>) -> Defines {
        if self.stack@.len() > 0 { Defines { stack: vec_of(self.stack@.update(self.stack@.len() - 1, (self.stack@.last().0, table_of(self.stack@.last().1@.remove(k))))), ..*self } }
        else { Defines { global: table_of(self.global@.remove(k)), ..*self } }
    }
    pub open spec fn open_with(&self, k: Seq<char>, args: InnerDefines) -> Defines { Defines { stack: vec_of(self.stack@.push((mk_name(k), args))), ..*self } }
    pub open spec fn closed(&self) -> Defines { if self.stack@.len() > 0 { Defines { stack: vec_of(self.stack@.drop_last()), ..*self } } else { *self } }
}
/// the arguments of macros are values, never functions
pub open spec fn plain(e: Entry) -> bool { e.2 is Argument ==> e.1 is Value }
pub open spec fn plain_table(i: InnerDefines) -> bool { forall|k: Seq<char>| i@.dom().contains(k) ==> plain(#[trigger] i@[k]) }
impl Defines { pub open spec fn args_plain(&self) -> bool { plain_table(self.global) && forall|i: int| 0 <= i < self.stack@.len() ==> plain_table((#[trigger] self.stack@[i]).1) } }
/// a use inside the very lines of the definition is not a use
pub open spec fn inside(t: Token, f: FunctionDefinition) -> bool {
    t.source.path.text() == f.position.path.text() && t.source.start.1.0 >= f.position.start.1.0 && t.source.start.1.0 <= f.position.end.1.0
}
/// text of the built-in macros that name the file (bounded stand-in)
pub uninterp spec fn file_word(k: Seq<char>, site: Position) -> Seq<char>;
pub uninterp spec fn arc_of(t: Token) -> Arc<Token>;
pub broadcast axiom fn ax_arc(t: Token) ensures tk(#[trigger] arc_of(t)) == t;
pub open spec fn tok(s: Symbol, p: Position) -> Arc<Token> { arc_of(Token { symbol: s, source: p }) }
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string(s: String) ensures string_of(#[trigger] s@) == s;
pub uninterp spec fn too_many() -> usize;
/// (nothing counts to 2^64)
pub open spec fn next_count(c: usize) -> usize { if c < usize::MAX { (c + 1) as usize } else { too_many() } }
/// What a built-in macro stands for at `site`, and the counter afterwards.
pub open spec fn generated(k: Seq<char>, p: Position, site: Position, counter: usize) -> (Definition, usize) {
    if k == "__COUNTER__"@ { (Definition::Value(vec_of(seq![tok(Symbol::Digit(counter), p)])), next_count(counter)) }
    else if k == "__COUNTER_RESET__"@ { (Definition::Void, 0) }
    else if k == "__LINE__"@ { (Definition::Value(vec_of(seq![tok(Symbol::Digit(site.start.1.0), p)])), counter) }
    else if k == "__FILE__"@ { (Definition::Value(vec_of(seq![tok(Symbol::DoubleQuote, p), tok(Symbol::Word(string_of(file_word(k, site))), p), tok(Symbol::DoubleQuote, p)])), counter) }
    else { (Definition::Value(vec_of(seq![tok(Symbol::Word(string_of(file_word(k, site))), p)])), counter) }
}
impl Defines {
    /// What the token stands for where it is used from `site`.
    pub open spec fn found(&self, t: Arc<Token>, site: Option<Position>) -> Option<Entry> {
        let k = t.text();
        if site is Some && gen_name(k) { Some((t, generated(k, t.source, site->0, self.counter).0, DefineSource::Generated)) }
        else {
            match self.visible(k) {
                Some((_, Definition::Function(f), _)) => if inside(*t, f) { None } else { self.visible(k) },
                o => o,
            }
        }
    }
    pub open spec fn after(&self, t: Arc<Token>, site: Option<Position>) -> Defines {
        if site is Some && gen_name(t.text()) { Defines { counter: generated(t.text(), t.source, site->0, self.counter).1, ..*self } } else { *self }
    }
}
pub broadcast proof fn lemma_vec1(v: Vec<Arc<Token>>)
    requires v@.len() == 1
    ensures #![trigger v@] vec_of(seq![v@[0]]) == v
{ broadcast use ax_vec; assert(seq![v@[0]] =~= v@); }
pub broadcast proof fn lemma_vec3(v: Vec<Arc<Token>>)
    requires v@.len() == 3
    ensures #![trigger v@] vec_of(seq![v@[0], v@[1], v@[2]]) == v
{ broadcast use ax_vec; assert(seq![v@[0], v@[1], v@[2]] =~= v@); }
