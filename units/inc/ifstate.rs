// The stack of conditions.
//@extract libs/preprocessor/src/ifstate.rs | enum IfState
//@pub
//@end
//@extract libs/preprocessor/src/ifstate.rs | struct IfStates
//@pub
//@end
/// One enclosing condition: `sel` what it evaluated to (None: it stands in an inactive branch and
/// was never evaluated), `els` whether its #else was passed.
pub struct Fr { pub sel: Option<bool>, pub els: bool }
pub open spec fn fr(s: IfState, e: Option<Arc<Token>>) -> Fr {
    Fr {
        sel: match s { IfState::ReadingIf(_) => Some(true), IfState::PassingElse(_) => Some(true), IfState::PassingIf(_) => Some(false), IfState::ReadingElse(_) => Some(false), IfState::PassingChild(_) => None },
        els: e is Some,
    }
}
/// the branch we are in is the one the condition selects
pub open spec fn selected(f: Fr) -> bool { f.sel == Some(!f.els) }
pub open spec fn active(v: Seq<Fr>) -> bool { forall|i: int| 0 <= i < v.len() ==> selected(#[trigger] v[i]) }
/// #if / #ifdef / #ifndef that evaluated to `c`; inside an inactive branch it is not evaluated
pub open spec fn opened(v: Seq<Fr>, c: Option<bool>) -> Seq<Fr> { v.push(Fr { sel: c, els: false }) }
/// #else: None is an error
pub open spec fn flipped(v: Seq<Fr>) -> Option<Seq<Fr>> {
    if v.len() == 0 { Some(v) } else if v.last().els { None } else { Some(v.update(v.len() - 1, Fr { sel: v.last().sel, els: true })) }
}
/// #endif
pub open spec fn closed(v: Seq<Fr>) -> Seq<Fr> { if v.len() == 0 { v } else { v.drop_last() } }
impl IfState {
    pub open spec fn reads(&self) -> bool { self is ReadingIf || self is ReadingElse }
//@extract libs/preprocessor/src/ifstate.rs | impl IfState @ fn reading
//@spec
    ensures r == self.reads()
//@end
//@extract libs/preprocessor/src/ifstate.rs | impl IfState @ fn token
//@end
}
/// slice::Iter with take, skip, all and any (assumed contract)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SIt<'a, T> { x: core::marker::PhantomData<&'a T> }
impl<'a, T> SIt<'a, T> {
    pub uninterp spec fn s(&self) -> Seq<T>;
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self) ensures r.s() == self.s().take(if n <= self.s().len() { n as int } else { self.s().len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self) ensures r.s() == self.s().skip(if n <= self.s().len() { n as int } else { self.s().len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r.s() == self.s().reverse() { unimplemented!() }
    #[verifier::external_body] pub fn all<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).s().len() ==> f.requires((&#[trigger] old(self).s()[i],)),
        ensures r ==> forall|i: int| 0 <= i < old(self).s().len() ==> f.ensures((&#[trigger] old(self).s()[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self).s().len() && f.ensures((&#[trigger] old(self).s()[i],), false),
    { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).s().len() ==> f.requires((&#[trigger] old(self).s()[i],)),
        ensures !r ==> forall|i: int| 0 <= i < old(self).s().len() ==> f.ensures((&#[trigger] old(self).s()[i],), false),
            r ==> exists|i: int| 0 <= i < old(self).s().len() && f.ensures((&#[trigger] old(self).s()[i],), true),
    { unimplemented!() }
}
#[verifier::external_body] pub fn sit<T>(v: &Vec<T>) -> (r: SIt<'_, T>) ensures r.s() == v@ { unimplemented!() }
pub struct DoubleElse {}
impl DoubleElse { #[verifier::external_body] pub fn code(a: Token, b: Token, c: Token) -> Error { unimplemented!() } }
impl IfStates {
    pub open spec fn v(&self) -> Seq<Fr> { Seq::new(self.stack@.len(), |i: int| fr(self.stack@[i], self.did_else@[i])) }
    pub open spec fn wf(&self) -> bool {
        &&& self.stack@.len() == self.did_else@.len()
        &&& forall|i: int| 0 <= i < self.stack@.len() ==> wf_at(#[trigger] self.stack@[i], self.did_else@[i])
        &&& forall|i: int| #![trigger self.stack@[i]] 0 <= i < self.stack@.len() ==> (self.stack@[i] is PassingChild <==> exists|j: int| 0 <= j < i && !(#[trigger] self.stack@[j]).reads())
    }
    pub proof fn active_reads(&self)
        requires self.wf()
        ensures active(self.v()) <==> forall|i: int| 0 <= i < self.stack@.len() ==> (#[trigger] self.stack@[i]).reads()
    {
        if active(self.v()) {
            assert forall|i: int| 0 <= i < self.stack@.len() implies (#[trigger] self.stack@[i]).reads() by { assert(selected(self.v()[i])); assert(wf_at(self.stack@[i], self.did_else@[i])); }
        }
        if forall|i: int| 0 <= i < self.stack@.len() ==> (#[trigger] self.stack@[i]).reads() {
            assert forall|i: int| 0 <= i < self.v().len() implies selected(#[trigger] self.v()[i]) by { assert(self.stack@[i].reads()); assert(wf_at(self.stack@[i], self.did_else@[i])); }
        }
    }
//@extract libs/preprocessor/src/ifstate.rs | impl IfStates @ fn reading
//@sub (self\s*\.\w+)\s*\.iter\(\) ==> sit(&\1)
//@spec
    requires self.wf()
    ensures r == active(self.v())
//@entry
    proof { self.active_reads(); }
//@end
//@extract libs/preprocessor/src/ifstate.rs | impl IfStates @ fn push
//@spec
    ensures final(self).stack@ == old(self).stack@.push(s), final(self).did_else@ == old(self).did_else@.push(None),
        old(self).wf() && (s is ReadingIf || s is PassingIf) && active(old(self).v()) ==> final(self).wf() && final(self).v() == opened(old(self).v(), fr(s, None).sel),
        old(self).wf() && s is PassingChild && !active(old(self).v()) ==> final(self).wf() && final(self).v() == opened(old(self).v(), None),
//@exit
    proof {
        if old(self).wf() {
            old(self).active_reads();
            assert(self.stack@ =~= old(self).stack@.push(s));
            assert(self.did_else@ =~= old(self).did_else@.push(None));
            assert(self.v() =~= opened(old(self).v(), fr(s, None).sel));
            if !(s is ReadingElse || s is PassingElse) && (s is PassingChild <==> !active(old(self).v())) { lemma_pushed(*old(self), *self, s); }
        }
    }
//@end
//@extract libs/preprocessor/src/ifstate.rs | impl IfStates @ fn push_if
//@spec
    requires old(self).wf(), active(old(self).v())
    ensures final(self).wf(), final(self).v() == opened(old(self).v(), Some(state))
//@end
//@extract libs/preprocessor/src/ifstate.rs | impl IfStates @ fn pop
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).v() == closed(old(self).v()), r is Some <==> old(self).v().len() > 0,
        r is Some ==> r->0 == old(self).stack@.last(), old(self).v().len() > 0 ==> final(self).stack@ == old(self).stack@.drop_last() && final(self).did_else@ == old(self).did_else@.drop_last(),
//@exit
    proof {
        assert(self.v() =~= closed(old(self).v()));
        assert(self.stack@ =~= old(self).stack@.take(self.stack@.len() as int));
        assert(self.did_else@ =~= old(self).did_else@.take(self.stack@.len() as int));
        lemma_prefix(*old(self), *self);
    }
//@end
//@extract libs/preprocessor/src/ifstate.rs | impl IfStates @ fn flip
//@sub \.as_ref\(\)\s*\.clone\(\) ==> .tok()
//@sub (self\s*\.stack)\s*\.iter\(\) ==> sit(&\1)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), r is Ok <==> flipped(old(self).v()) is Some, r is Ok ==> Some(final(self).v()) == flipped(old(self).v()), r is Err ==> *final(self) == *old(self)
//@entry
    proof { self.active_reads(); }
//@exit
    proof {
        if tailv is Ok && old(self).v().len() > 0 {
            let n = old(self).stack@.len() - 1;
            assert(wf_at(old(self).stack@[n], old(self).did_else@[n]));
            assert(old(self).stack@[n] is PassingChild <==> exists|j: int| 0 <= j < n && !(#[trigger] old(self).stack@[j]).reads());
            if exists|j: int| 0 <= j < n && !(#[trigger] old(self).stack@[j]).reads() { let j = choose|j: int| 0 <= j < n && !(#[trigger] old(self).stack@[j]).reads(); assert(old(self).stack@.take(n)[j] == old(self).stack@[j]); }
            assert(self.stack@.drop_last() =~= old(self).stack@.drop_last());
            assert(self.did_else@.drop_last() =~= old(self).did_else@.drop_last());
            lemma_top(*old(self), *self);
        }
        if tailv is Ok { assert(self.v() =~= flipped(old(self).v())->0); }
    }
//@end
}
pub open spec fn wf_at(s: IfState, e: Option<Arc<Token>>) -> bool {
    &&& s is ReadingIf || s is PassingIf ==> e is None
    &&& s is ReadingElse || s is PassingElse ==> e is Some
}
pub proof fn lemma_pushed(a: IfStates, b: IfStates, s: IfState)
    requires a.wf(), b.stack@ == a.stack@.push(s), b.did_else@ == a.did_else@.push(None), !(s is ReadingElse || s is PassingElse), s is PassingChild <==> !active(a.v())
    ensures b.wf()
{
    a.active_reads();
    assert forall|i: int| #![trigger b.stack@[i]] 0 <= i < b.stack@.len() implies (b.stack@[i] is PassingChild <==> exists|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads()) by {
        if i < a.stack@.len() {
            assert(b.stack@[i] == a.stack@[i]);
            if b.stack@[i] is PassingChild { let j = choose|j: int| 0 <= j < i && !(#[trigger] a.stack@[j]).reads(); assert(!b.stack@[j].reads()); }
        } else {
            if s is PassingChild { let j = choose|j: int| 0 <= j < a.stack@.len() && !(#[trigger] a.stack@[j]).reads(); assert(!b.stack@[j].reads()); }
        }
        if exists|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads() { let j = choose|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads(); assert(!a.stack@[j].reads()); }
    }
    assert forall|i: int| 0 <= i < b.stack@.len() implies wf_at(#[trigger] b.stack@[i], b.did_else@[i]) by { if i < a.stack@.len() { assert(wf_at(a.stack@[i], a.did_else@[i])); } }
}
/// only the innermost condition changed
pub proof fn lemma_top(a: IfStates, b: IfStates)
    requires a.wf(), a.stack@.len() > 0, b.stack@.len() == a.stack@.len(), b.did_else@.len() == b.stack@.len(),
        b.stack@.drop_last() == a.stack@.drop_last(), b.did_else@.drop_last() == a.did_else@.drop_last(),
        wf_at(b.stack@.last(), b.did_else@.last()), b.stack@.last() is PassingChild <==> a.stack@.last() is PassingChild
    ensures b.wf()
{
    assert forall|i: int| 0 <= i < a.stack@.len() - 1 implies #[trigger] b.stack@[i] == a.stack@[i] && b.did_else@[i] == a.did_else@[i] by { assert(b.stack@.drop_last()[i] == b.stack@[i]); assert(a.stack@.drop_last()[i] == a.stack@[i]); assert(b.did_else@.drop_last()[i] == b.did_else@[i]); assert(a.did_else@.drop_last()[i] == a.did_else@[i]); }
    assert forall|i: int| #![trigger b.stack@[i]] 0 <= i < b.stack@.len() implies (b.stack@[i] is PassingChild <==> exists|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads()) by {
        assert(b.stack@[i] is PassingChild <==> a.stack@[i] is PassingChild);
        if exists|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads() { let j = choose|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads(); assert(!a.stack@[j].reads()); }
        if exists|j: int| 0 <= j < i && !(#[trigger] a.stack@[j]).reads() { let j = choose|j: int| 0 <= j < i && !(#[trigger] a.stack@[j]).reads(); assert(!b.stack@[j].reads()); }
    }
    assert forall|i: int| 0 <= i < b.stack@.len() implies wf_at(#[trigger] b.stack@[i], b.did_else@[i]) by { assert(wf_at(a.stack@[i], a.did_else@[i])); }
}
pub proof fn lemma_prefix(a: IfStates, b: IfStates)
    requires a.wf(), b.stack@ == a.stack@.take(b.stack@.len() as int), b.did_else@ == a.did_else@.take(b.stack@.len() as int), b.stack@.len() <= a.stack@.len()
    ensures b.wf()
{
    assert forall|i: int| #![trigger b.stack@[i]] 0 <= i < b.stack@.len() implies (b.stack@[i] is PassingChild <==> exists|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads()) by {
        assert(b.stack@[i] == a.stack@[i]);
        if exists|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads() { let j = choose|j: int| 0 <= j < i && !(#[trigger] b.stack@[j]).reads(); assert(!a.stack@[j].reads()); }
        if exists|j: int| 0 <= j < i && !(#[trigger] a.stack@[j]).reads() { let j = choose|j: int| 0 <= j < i && !(#[trigger] a.stack@[j]).reads(); assert(!b.stack@[j].reads()); }
    }
    assert forall|i: int| 0 <= i < b.stack@.len() implies wf_at(#[trigger] b.stack@[i], b.did_else@[i]) by { assert(wf_at(a.stack@[i], a.did_else@[i])); }
}
