#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
verus! {
/// f64: the arithmetic is uninterpreted
#[verifier::external_body] #[derive(Clone, Copy, Debug)] pub struct Num { x: f64 }
pub uninterp spec fn n_add(a: Num, b: Num) -> Num;
pub uninterp spec fn n_sub(a: Num, b: Num) -> Num;
pub uninterp spec fn n_mul(a: Num, b: Num) -> Num;
pub uninterp spec fn n_div(a: Num, b: Num) -> Num;
pub uninterp spec fn n_rem(a: Num, b: Num) -> Num;
pub uninterp spec fn n_pow(a: Num, b: Num) -> Num;
/// str::parse::<f64>
pub uninterp spec fn number(s: Seq<char>) -> Option<Num>;
macro_rules! ops { ($($tr:ident $sp:ident $f:ident $n:ident $req:ident $en:ident $obeys:ident;)*) => { verus!{ $(
    impl std::ops::$tr for Num { type Output = Num; #[verifier::external_body] fn $f(self, o: Num) -> Num { unimplemented!() } }
    impl vstd::std_specs::ops::$sp for Num { open spec fn $obeys() -> bool { true } open spec fn $req(self, o: Num) -> bool { true } open spec fn $en(self, o: Num) -> Num { $n(self, o) } }
)* } } }
ops! {
    Add AddSpecImpl add n_add add_req add_spec obeys_add_spec;
    Sub SubSpecImpl sub n_sub sub_req sub_spec obeys_sub_spec;
    Mul MulSpecImpl mul n_mul mul_req mul_spec obeys_mul_spec;
    Div DivSpecImpl div n_div div_req div_spec obeys_div_spec;
    Rem RemSpecImpl rem n_rem rem_req rem_spec obeys_rem_spec;
}
impl Num { #[verifier::external_body] pub fn powf(self, o: Num) -> (r: Num) ensures r == n_pow(self, o) { unimplemented!() } }
#[verifier::external_body] pub fn parse_num(s: &String) -> (r: Result<Num, String>) ensures r is Ok <==> number(s@) is Some, r is Ok ==> Some(r->Ok_0) == number(s@) { unimplemented!() }
#[verifier::external_body] pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn no_chars(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn error_text(c: char) -> String { unimplemented!() }
/// std::collections::HashMap built from a list of pairs: the last one for a key counts
pub open spec fn lookup<V>(a: Seq<(char, V)>, k: char) -> Option<V>
    decreases a.len()
{ if a.len() == 0 { None } else if a.last().0 == k { Some(a.last().1) } else { lookup(a.drop_last(), k) } }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<V> HashMap<char, V> {
    pub uninterp spec fn pairs(&self) -> Seq<(char, V)>;
    #[verifier::external_body] pub fn of<const N: usize>(a: [(char, V); N]) -> (r: Self) ensures r.pairs() == a@ { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &char) -> (r: Option<&V>) ensures r is Some <==> lookup(self.pairs(), *k) is Some, r is Some ==> Some(*r->0) == lookup(self.pairs(), *k) { unimplemented!() }
}
//@extract libs/common/src/math.rs | enum Token
//@pub
//@attr #[derive(Clone, Copy)]
//@sub \bf64\b ==> Num
//@end
//@extract libs/common/src/math.rs | enum Associativity
//@pub
//@attr #[derive(Clone, Copy)]
//@end
impl PartialEq for Token { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Token {
    open spec fn obeys_eq_spec() -> bool { true }
    /// numbers are compared as floats; everything else by what it is
    open spec fn eq_spec(&self, o: &Token) -> bool { if *self is Number && *o is Number { same_num(self->Number_0, o->Number_0) } else { *self == *o } }
}
pub uninterp spec fn same_num(a: Num, b: Num) -> bool;
impl PartialEq for Associativity { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Associativity {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Associativity) -> bool { *self == *o }
}

// ---------------------------------------------------------------- what an expression means
pub enum Tree { Num(Num), Bin(char, Box<Tree>, Box<Tree>), Par(Box<Tree>) }
pub open spec fn is_op(c: char) -> bool { c == '+' || c == '-' || c == '*' || c == '/' || c == '%' || c == '^' }
pub open spec fn prec(c: char) -> int { if c == '+' || c == '-' { 1 } else if c == '^' { 3 } else { 2 } }
pub open spec fn right(c: char) -> bool { c == '^' }
/// the text of a tree, as tokens
pub open spec fn yields(t: Tree) -> Seq<Token>
    decreases t
{ match t {
    Tree::Num(n) => seq![Token::Number(n)],
    Tree::Bin(c, l, r) => yields(*l).push(Token::Operator(c)) + yields(*r),
    Tree::Par(t) => (seq![Token::LeftParenthesis] + yields(*t)).push(Token::RightParenthesis),
} }
/// `l c ...` needs no parentheses around l
pub open spec fn left_ok(c: char, l: Tree) -> bool { l is Bin ==> prec(l->Bin_0) > prec(c) || prec(l->Bin_0) == prec(c) && !right(c) }
/// `... c r` needs no parentheses around r
pub open spec fn right_ok(c: char, r: Tree) -> bool { r is Bin ==> prec(r->Bin_0) > prec(c) || prec(r->Bin_0) == prec(c) && right(c) }
/// a tree that follows precedence and associativity
pub open spec fn proper(t: Tree) -> bool
    decreases t
{ match t { Tree::Num(n) => true, Tree::Bin(c, l, r) => is_op(c) && proper(*l) && proper(*r) && left_ok(c, *l) && right_ok(c, *r), Tree::Par(t) => proper(*t) } }
pub open spec fn apply(c: char, a: Num, b: Num) -> Num {
    if c == '+' { n_add(a, b) } else if c == '-' { n_sub(a, b) } else if c == '*' { n_mul(a, b) } else if c == '/' { n_div(a, b) } else if c == '%' { n_rem(a, b) } else { n_pow(a, b) }
}
pub open spec fn value(t: Tree) -> Num
    decreases t
{ match t { Tree::Num(n) => n, Tree::Bin(c, l, r) => apply(c, value(*l), value(*r)), Tree::Par(t) => value(*t) } }
/// The value of a token list: that of the tree it spells; None when it spells none.
pub open spec fn means(s: Seq<Token>, r: Option<Num>) -> bool {
    match r { Some(v) => exists|t: Tree| proper(t) && yields(t) == s && v == value(t), None => forall|t: Tree| proper(t) ==> #[trigger] yields(t) != s }
}

// ---------------------------------------------------------------- tokens of a text
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' || c == '.' }
/// the number being read, if any, becomes a token
pub open spec fn flushed(s: Option<(Seq<Token>, Seq<char>)>) -> Option<(Seq<Token>, Seq<char>)> {
    match s {
        None => None,
        Some((t, n)) => if n.len() == 0 { s } else { match number(n) { None => None, Some(x) => Some((t.push(Token::Number(x)), Seq::empty())) } },
    }
}
pub open spec fn after_operator(t: Seq<Token>) -> bool { t.len() > 0 && (t.last() is Operator || t.last() is LeftParenthesis) }
/// tokens and the unfinished number after reading `s`
pub open spec fn lexed(s: Seq<char>) -> Option<(Seq<Token>, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { Some((Seq::empty(), Seq::empty())) } else {
        let c = s.last();
        let p = lexed(s.drop_last());
        let f = flushed(p);
        if p is None { None }
        else if digit(c) { Some(((p->0).0, (p->0).1.push(c))) }
        else if f is None { None }
        else if c == '-' && after_operator((f->0).0) { Some(((f->0).0, seq!['-'])) }
        else if c == '(' { Some(((f->0).0.push(Token::LeftParenthesis), Seq::empty())) }
        else if c == ')' { Some(((f->0).0.push(Token::RightParenthesis), Seq::empty())) }
        else if is_op(c) { Some(((f->0).0.push(Token::Operator(c)), Seq::empty())) }
        else if c == ' ' { f }
        else { None }
    }
}
pub open spec fn tokens_of(s: Seq<char>) -> Option<Seq<Token>> { match flushed(lexed(s)) { None => None, Some((t, n)) => Some(t) } }
proof fn lemma_lex_prefix(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), lexed(s.take(i)) is None
    ensures lexed(s) is None
    decreases s.len()
{
    if i == s.len() { assert(s.take(i) =~= s); }
    else { assert(s.drop_last().take(i) =~= s.take(i)); lemma_lex_prefix(s.drop_last(), i); }
}
//@extract libs/common/src/math.rs | fn tokenize
//@sub expression\.chars\(\) ==> seq(chars_of(expression))
//@sub (?s)current_number\s*\.parse\(\)\s*\.map_err\(\|e: <f64 as FromStr>::Err\| e\.to_string\(\)\) ==> parse_num(&current_number)
//@sub current_number\.is_empty\(\) ==> no_chars(&current_number)
//@sub format!\("Invalid operator: \{c\}"\) ==> error_text(c)
//@spec
    ensures r is Ok <==> tokens_of(expression@) is Some, r is Ok ==> Some((r->Ok_0)@) == tokens_of(expression@)
//@index 0
//@loop 0 for
    invariant vs0@ == expression@, 0 <= ix0 <= vs0@.len(), lexed(vs0@.take(ix0 as int)) == Some((tokens@, current_number@))
    decreases vs0@.len() - ix0
//@loopstart 0
    proof {
        let p = vs0@.take(ix0 as int);
        assert(p.drop_last() =~= vs0@.take(ix0 - 1)); assert(p.last() == c);
        if lexed(p) is None { lemma_lex_prefix(vs0@, ix0 as int); }
    }
//@loopend 0
    proof { assert(lexed(vs0@.take(ix0 as int)) == Some((tokens@, current_number@))) by { assert(seq!['-'] =~= Seq::<char>::empty().push('-')); } }
//@before if !no_chars\(&current_number\) \{\s*tokens\.push\(Token::Number\(\s*parse_num\(&current_number\)\?,\s*\)\);\s*\}\s*Ok
    proof { assert(vs0@.take(vs0@.len() as int) =~= vs0@); }
//@end

// ---------------------------------------------------------------- postfix order
pub open spec fn post(t: Tree) -> Seq<Token>
    decreases t
{ match t { Tree::Num(n) => seq![Token::Number(n)], Tree::Bin(c, l, r) => (post(*l) + post(*r)).push(Token::Operator(c)), Tree::Par(t) => post(*t) } }
/// the values on the stack after running a postfix list
pub open spec fn ran(s: Seq<Token>) -> Option<Seq<Num>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match ran(s.drop_last()) {
            None => None,
            Some(v) => match s.last() {
                Token::Number(n) => Some(v.push(n)),
                Token::Operator(c) => if v.len() >= 2 && is_op(c) { Some(v.take(v.len() - 2).push(apply(c, v[v.len() - 2], v[v.len() - 1]))) } else { None },
                _ => None,
            },
        }
    }
}
proof fn lemma_ran(a: Seq<Token>, t: Tree)
    requires ran(a) is Some, proper(t)
    ensures ran(a + post(t)) == Some((ran(a)->0).push(value(t)))
    decreases t
{
    let v = ran(a)->0;
    match t {
        Tree::Num(n) => { assert((a + post(t)).drop_last() =~= a); }
        Tree::Bin(c, l, r) => {
            lemma_ran(a, *l); lemma_ran(a + post(*l), *r);
            let s = a + post(t);
            assert(s.drop_last() =~= a + post(*l) + post(*r));
            assert(s.last() == Token::Operator(c));
            let w = v.push(value(*l)).push(value(*r));
            assert(w.take(w.len() - 2) =~= v);
        }
        Tree::Par(u) => { lemma_ran(a, *u); }
    }
}
proof fn lemma_ran_prefix(s: Seq<Token>, i: int)
    requires 0 <= i <= s.len(), ran(s.take(i)) is None
    ensures ran(s) is None
    decreases s.len()
{ if i == s.len() { assert(s.take(i) =~= s); } else { assert(s.drop_last().take(i) =~= s.take(i)); lemma_ran_prefix(s.drop_last(), i); } }
proof fn lemma_ran_bad(s: Seq<Token>, i: int)
    requires 0 <= i < s.len(), s[i] is LeftParenthesis || s[i] is RightParenthesis
    ensures ran(s) is None
{ let p = s.take(i + 1); assert(p.last() == s[i]); lemma_ran_prefix(s, i + 1); }
//@extract libs/common/src/math.rs | fn evaluate_postfix
//@sub \bf64\b ==> Num
//@sub for token in tokens \{ ==> for token in &tokens {
//@spec
    ensures r == match ran(tokens@) { None => None::<Num>, Some(v) => if v.len() == 0 { None } else { Some(v.last()) } }
//@index 0
//@loop 0 for
    invariant vs0@ == tokens@, 0 <= ix0 <= vs0@.len(), ran(vs0@.take(ix0 as int)) == Some(stack@)
    decreases vs0@.len() - ix0
//@loopstart 0
    let ghost v = stack@;
    proof {
        let p = vs0@.take(ix0 as int);
        assert(p.drop_last() =~= vs0@.take(ix0 - 1)); assert(p.last() == *token);
        if ran(p) is None { lemma_ran_prefix(vs0@, ix0 as int); }
        if v.len() >= 2 { assert(v.drop_last().drop_last() =~= v.take(v.len() - 2)); }
    }
//@exit
    proof { assert(tokens@.take(tokens@.len() as int) =~= tokens@); }
//@end

// ---------------------------------------------------------------- the shape of a token list
/// (an operand is due, number of open parentheses) after reading `s`
pub open spec fn scan(s: Seq<Token>) -> Option<(bool, int)>
    decreases s.len()
{
    if s.len() == 0 { Some((true, 0int)) } else {
        match scan(s.drop_last()) {
            None => None,
            Some((due, d)) => match s.last() {
                Token::Number(n) => if due { Some((false, d)) } else { None },
                Token::LeftParenthesis => if due { Some((true, d + 1)) } else { None },
                Token::Operator(c) => if due { None } else { Some((true, d)) },
                Token::RightParenthesis => if due || d == 0 { None } else { Some((false, d - 1)) },
            },
        }
    }
}
proof fn lemma_scan(a: Seq<Token>, t: Tree)
    requires scan(a) is Some, (scan(a)->0).0, (scan(a)->0).1 >= 0
    ensures scan(a + yields(t)) == Some((false, (scan(a)->0).1))
    decreases t
{
    match t {
        Tree::Num(n) => { assert((a + yields(t)).drop_last() =~= a); }
        Tree::Bin(c, l, r) => {
            lemma_scan(a, *l);
            let b = (a + yields(*l)).push(Token::Operator(c));
            assert(b.drop_last() =~= a + yields(*l));
            lemma_scan(b, *r);
            assert(a + yields(t) =~= b + yields(*r));
        }
        Tree::Par(u) => {
            let b = a.push(Token::LeftParenthesis);
            assert(b.drop_last() =~= a);
            lemma_scan(b, *u);
            assert((a + yields(t)).drop_last() =~= b + yields(*u));
        }
    }
}
proof fn lemma_scan_prefix(s: Seq<Token>, i: int)
    requires 0 <= i <= s.len(), scan(s.take(i)) is None
    ensures scan(s) is None
    decreases s.len()
{ if i == s.len() { assert(s.take(i) =~= s); } else { assert(s.drop_last().take(i) =~= s.take(i)); lemma_scan_prefix(s.drop_last(), i); } }
/// a list of the wrong shape is no expression
proof fn lemma_no_tree(s: Seq<Token>)
    requires scan(s) != Some((false, 0int))
    ensures forall|t: Tree| proper(t) ==> #[trigger] yields(t) != s
{
    assert forall|t: Tree| proper(t) implies #[trigger] yields(t) != s by { lemma_scan(Seq::empty(), t); assert(Seq::<Token>::empty() + yields(t) =~= yields(t)); }
}

// ---------------------------------------------------------------- the operator stack
/// the left operand of every operator on the stack, and the operand just read
pub struct Left { pub at: Seq<Tree>, pub cur: Option<Tree> }
pub open spec fn spelled(st: Seq<Token>, l: Seq<Tree>) -> Seq<Token>
    decreases st.len()
{
    if st.len() == 0 { Seq::empty() }
    else if st.last() is Operator { spelled(st.drop_last(), l.drop_last()) + yields(l.last()).push(st.last()) }
    else { spelled(st.drop_last(), l.drop_last()).push(st.last()) }
}
pub open spec fn queued(st: Seq<Token>, l: Seq<Tree>) -> Seq<Token>
    decreases st.len()
{
    if st.len() == 0 { Seq::empty() }
    else if st.last() is Operator { queued(st.drop_last(), l.drop_last()) + post(l.last()) }
    else { queued(st.drop_last(), l.drop_last()) }
}
pub open spec fn parens(st: Seq<Token>) -> int
    decreases st.len()
{ if st.len() == 0 { 0 } else { parens(st.drop_last()) + if st.last() is LeftParenthesis { 1int } else { 0int } } }
/// `b` may stand on the stack right above `a`
pub open spec fn above(a: char, b: char) -> bool { prec(b) > prec(a) || prec(b) == prec(a) && right(b) }
pub open spec fn stack_ok(st: Seq<Token>, l: Seq<Tree>) -> bool
    decreases st.len()
{
    st.len() == l.len() && (st.len() > 0 ==> {
        &&& stack_ok(st.drop_last(), l.drop_last())
        &&& st.last() is Operator || st.last() is LeftParenthesis
        &&& st.last() is Operator ==> is_op(st.last()->Operator_0) && proper(l.last()) && left_ok(st.last()->Operator_0, l.last())
            && (st.len() > 1 && st[st.len() - 2] is Operator ==> above(st[st.len() - 2]->Operator_0, st.last()->Operator_0))
    })
}
pub open spec fn cur_ok(st: Seq<Token>, c: Tree) -> bool { proper(c) && (st.len() > 0 && st.last() is Operator ==> right_ok(st.last()->Operator_0, c)) }
pub open spec fn holds(done: Seq<Token>, st: Seq<Token>, out: Seq<Token>, g: Left) -> bool {
    &&& stack_ok(st, g.at)
    &&& match g.cur { None => done == spelled(st, g.at) && out == queued(st, g.at), Some(c) => cur_ok(st, c) && done == spelled(st, g.at) + yields(c) && out == queued(st, g.at) + post(c) }
}
pub open spec fn reduced(st: Seq<Token>, g: Left) -> Left { Left { at: g.at.drop_last(), cur: Some(Tree::Bin(st.last()->Operator_0, Box::new(g.at.last()), Box::new(g.cur->0))) } }
/// moving the operator on top of the stack to the queue
proof fn lemma_reduce(done: Seq<Token>, st: Seq<Token>, out: Seq<Token>, g: Left)
    requires holds(done, st, out, g), g.cur is Some, st.len() > 0, st.last() is Operator
    ensures holds(done, st.drop_last(), out.push(st.last()), reduced(st, g)), parens(st.drop_last()) == parens(st)
{
    let c = g.cur->0; let op = st.last()->Operator_0; let l = g.at.last();
    let n = Tree::Bin(op, Box::new(l), Box::new(c));
    assert(st.last() == Token::Operator(op));
    assert(post(n) == (post(l) + post(c)).push(Token::Operator(op)));
    assert(out.push(st.last()) =~= queued(st.drop_last(), g.at.drop_last()) + post(n));
    assert(yields(n) == yields(l).push(Token::Operator(op)) + yields(c));
    assert(done =~= spelled(st.drop_last(), g.at.drop_last()) + yields(n));
}
proof fn lemma_parens(st: Seq<Token>)
    ensures parens(st) >= 0, parens(st) > 0 ==> exists|i: int| 0 <= i < st.len() && st[i] is LeftParenthesis
    decreases st.len()
{
    if st.len() > 0 {
        lemma_parens(st.drop_last());
        if st.last() is LeftParenthesis { assert(st[st.len() - 1] is LeftParenthesis); }
        else if parens(st.drop_last()) > 0 { let i = choose|i: int| 0 <= i < st.drop_last().len() && st.drop_last()[i] is LeftParenthesis; assert(st[i] is LeftParenthesis); }
    }
}
/// what the queue is once the stack is empty
pub open spec fn finished(all: Seq<Token>, out: Seq<Token>, depth: int) -> bool {
    &&& depth != 0 ==> ran(out) is None && (forall|t: Tree| proper(t) ==> #[trigger] yields(t) != all)
    &&& depth == 0 ==> ran(out) is Some && (ran(out)->0).len() == 1 && exists|t: Tree| proper(t) && yields(t) == all && (ran(out)->0)[0] == value(t)
}
proof fn lemma_finished(all: Seq<Token>, st: Seq<Token>, out: Seq<Token>, g: Left, depth: int)
    requires st.len() == 0, scan(all) == Some((false, depth)),
        depth == parens(st) && holds(all, st, out, g) && g.cur is Some || depth > 0 && exists|i: int| 0 <= i < out.len() && out[i] is LeftParenthesis,
    ensures finished(all, out, depth)
{
    if depth == 0 {
        let t = g.cur->0;
        lemma_ran(Seq::empty(), t);
        assert(out =~= Seq::<Token>::empty() + post(t)); assert(all =~= yields(t));
    } else {
        lemma_no_tree(all);
        let i = choose|i: int| 0 <= i < out.len() && out[i] is LeftParenthesis; lemma_ran_bad(out, i);
    }
}
spec fn table_ok(m: HashMap<char, (u8, Associativity)>) -> bool {
    forall|c: char| is_op(c) ==> (#[trigger] lookup(m.pairs(), c)) is Some && (lookup(m.pairs(), c)->0).0 as int == prec(c) && ((lookup(m.pairs(), c)->0).1 is Right <==> right(c))
}
proof fn lemma_tokens_ops(s: Seq<char>)
    requires lexed(s) is Some
    ensures forall|i: int| 0 <= i < (lexed(s)->0).0.len() && ((lexed(s)->0).0[i] is Operator) ==> is_op(#[trigger] (lexed(s)->0).0[i]->Operator_0)
    decreases s.len()
{ if s.len() > 0 { lemma_tokens_ops(s.drop_last()); } }
//@extract libs/common/src/math.rs | fn shunting_yard
//@sub (?s)\[(\s*\('\+'.*?)\]\s*\.iter\(\)\s*\.copied\(\)\s*\.collect\(\) ==> HashMap::of([\1])
//@sub \btokenize\(expression\)\.ok\(\)\? ==> match tokenize(expression) { Ok(t_) => t_, Err(_) => return None }
//@sub for token in tokens \{ ==> for token in seq(tokens) {
//@sub (\w+) == &Associativity::(\w+) ==> *\1 == Associativity::\2
//@sub \bprecedence (<=?) top_precedence ==> *precedence \1 *top_precedence
//@spec
    ensures
        r is None ==> tokens_of(expression@) is None || forall|t: Tree| proper(t) ==> #[trigger] yields(t) != tokens_of(expression@)->0,
        r is Some ==> tokens_of(expression@) is Some && match ran((r->0)@) {
            None => forall|t: Tree| proper(t) ==> #[trigger] yields(t) != tokens_of(expression@)->0,
            Some(v) => v.len() == 1 && exists|t: Tree| proper(t) && yields(t) == tokens_of(expression@)->0 && v[0] == value(t) },
//@index 0
//@loop 0 for
    invariant table_ok(operators), tokens_of(expression@) == Some(vs0@), 0 <= ix0 <= vs0@.len(),
        forall|i: int| 0 <= i < vs0@.len() && vs0@[i] is Operator ==> is_op(#[trigger] vs0@[i]->Operator_0),
        holds(vs0@.take(ix0 as int), operator_stack@, output_queue@, g),
        g.cur is None <==> expect_operand, g.cur is Some ==> !(g.cur->0 is Bin),
        scan(vs0@.take(ix0 as int)) == Some((expect_operand, parens(operator_stack@))),
        ix0 == vs0@.len() && expect_operand ==> forall|t: Tree| proper(t) ==> #[trigger] yields(t) != vs0@,
    decreases vs0@.len() - ix0
//@loopinit 0
    let ghost mut g = Left { at: Seq::empty(), cur: None };
    proof {
        reveal_with_fuel(lookup, 8);
        lemma_tokens_ops(expression@);
        assert(vs0@.take(0) =~= Seq::empty());
        if vs0@.len() == 0 { lemma_no_tree(vs0@); }
    }
//@loopstart 0
    let ghost done0 = vs0@.take(ix0 - 1);
    proof {
        let p = vs0@.take(ix0 as int);
        assert(p.drop_last() =~= done0); assert(p.last() == token); assert(p =~= done0.push(token));
        if scan(p) is None { lemma_scan_prefix(vs0@, ix0 as int); lemma_no_tree(vs0@); }
        lemma_parens(operator_stack@);
    }
    let ghost st1 = operator_stack@; let ghost mut st2 = operator_stack@;
//@loop 1 while
    invariant is_op(op), token == Token::Operator(op), table_ok(operators), holds(done0, operator_stack@, output_queue@, g), g.cur is Some, left_ok(op, g.cur->0),
        parens(operator_stack@) == depth0, st2 == operator_stack@,
    ensures st2 == operator_stack@, is_op(op), holds(done0, operator_stack@, output_queue@, g), g.cur is Some, left_ok(op, g.cur->0), parens(operator_stack@) == depth0,
        operator_stack@.len() > 0 && operator_stack@.last() is Operator ==> above(operator_stack@.last()->Operator_0, op)
    decreases operator_stack@.len()
//@loopinit 1
    let ghost depth0 = parens(operator_stack@);
//@loopstart 1
    proof { assert(is_op(*top_op)); }
//@before output_queue\.push\(operator_stack\.pop\(\)\?\);
    proof { lemma_reduce(done0, operator_stack@, output_queue@, g); g = reduced(operator_stack@, g); st2 = operator_stack@.drop_last(); }
//@loopend 0
    proof {
        let st = operator_stack@; let g2 = g; lemma_parens(st);
        match token {
            Token::Number(n) => { g = Left { at: g2.at, cur: Some(Tree::Num(n)) }; assert(done0.push(token) =~= spelled(st, g.at) + yields(g.cur->0)); assert(output_queue@ =~= queued(st, g.at) + post(g.cur->0)); assert(holds(done0.push(token), st, output_queue@, g)); assert(parens(st) == parens(st1)); }
            Token::LeftParenthesis => { g = Left { at: g2.at.push(Tree::Num(arbitrary())), cur: None }; assert(st.drop_last() =~= st1); assert(g.at.drop_last() =~= g2.at); assert(holds(done0.push(token), st, output_queue@, g)); assert(parens(st) == parens(st1) + 1); }
            Token::Operator(c) => {
                g = Left { at: g2.at.push(g2.cur->0), cur: None };
                assert(g.at.drop_last() =~= g2.at);
                assert(st.drop_last() =~= st2);
                assert(done0.push(token) =~= spelled(st.drop_last(), g2.at) + yields(g2.cur->0).push(token));
 assert(holds(done0.push(token), st, output_queue@, g)); assert(parens(st) == parens(st1));
            }
            Token::RightParenthesis => {
                let c = g2.cur->0; let l = st.push(Token::LeftParenthesis);
                assert(l.drop_last() =~= st);
                g = Left { at: g2.at.drop_last(), cur: Some(Tree::Par(Box::new(c))) };
                assert(done0.push(token) =~= spelled(st, g.at) + yields(g.cur->0));
 assert(holds(done0.push(token), st, output_queue@, g)); assert(parens(st) == parens(st1) - 1);
            }
        }
        assert(holds(vs0@.take(ix0 as int), operator_stack@, output_queue@, g));
        assert(vs0@.take(ix0 as int).drop_last() =~= done0); assert(vs0@.take(ix0 as int).last() == token);
        assert(scan(vs0@.take(ix0 as int)) == Some((expect_operand, parens(operator_stack@))));
        if ix0 == vs0@.len() { assert(vs0@.take(ix0 as int) =~= vs0@); if expect_operand { lemma_no_tree(vs0@); } }
    }
//@loop 2 while
    invariant_except_break holds(done0, operator_stack@, output_queue@, g), parens(operator_stack@) == depth2, !hit_left,
    invariant g.cur is Some
    ensures hit_left ==> holds(done0, operator_stack@.push(Token::LeftParenthesis), output_queue@, g) && parens(operator_stack@) == depth2 - 1,
        !hit_left ==> depth2 == 0
    decreases operator_stack@.len()
//@loopinit 2
    let ghost depth2 = parens(operator_stack@);
//@loopstart 2
    proof {
        let st0 = operator_stack@.push(top_token);
        assert(st0.drop_last() =~= operator_stack@);
        if top_token is Operator { lemma_reduce(done0, st0, output_queue@, g); g = reduced(st0, g); }
        else { assert(st0 =~= operator_stack@.push(Token::LeftParenthesis)); }
    }
//@loop 3 while
    invariant scan(vs0@) == Some((false, depth3)),
        depth3 == parens(operator_stack@) && holds(vs0@, operator_stack@, output_queue@, g) && g.cur is Some
            || depth3 > 0 && exists|i: int| 0 <= i < output_queue@.len() && output_queue@[i] is LeftParenthesis,
        operator_stack@.len() == 0 ==> finished(vs0@, output_queue@, depth3),
    ensures finished(vs0@, output_queue@, depth3)
    decreases operator_stack@.len()
//@loopinit 3
    let ghost depth3 = parens(operator_stack@);
    proof { assert(vs0@.take(vs0@.len() as int) =~= vs0@); if operator_stack@.len() == 0 { lemma_finished(vs0@, operator_stack@, output_queue@, g, depth3); } }
//@loopstart 3
    let ghost q3 = output_queue@;
    proof {
        let st0 = operator_stack@.push(operator);
        assert(st0.drop_last() =~= operator_stack@);
        lemma_parens(operator_stack@);
        if depth3 == parens(st0) && holds(vs0@, st0, q3, g) && g.cur is Some && operator is Operator { lemma_reduce(vs0@, st0, q3, g); g = reduced(st0, g); }
    }
//@loopend 3
    proof {
        if operator is LeftParenthesis { assert(output_queue@[q3.len() as int] is LeftParenthesis); }
        if exists|i: int| 0 <= i < q3.len() && q3[i] is LeftParenthesis { let i = choose|i: int| 0 <= i < q3.len() && q3[i] is LeftParenthesis; assert(output_queue@[i] is LeftParenthesis); }
        if operator_stack@.len() == 0 { lemma_finished(vs0@, operator_stack@, output_queue@, g, depth3); }
    }
//@end
//@extract libs/common/src/math.rs | fn eval
//@sub \bf64\b ==> Num
//@spec
    ensures match tokens_of(expression@) { None => r is None, Some(s) => means(s, r) }
//@end
}
fn main(){}
