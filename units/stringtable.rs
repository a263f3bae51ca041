#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
// ---------------------------------------------------------------- text, its order, and sorting (assumed contracts)
/// the order of str: total (std documents it as the lexicographic order of the bytes)
pub uninterp spec fn text_order(a: Seq<char>, b: Seq<char>) -> Ordering;
#[verifier::external_body] pub fn str_cmp(a: &str, b: &str) -> (r: Ordering) ensures r == text_order(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn opt_str(o: &Option<String>) -> (r: Option<&str>) ensures r is Some <==> *o is Some, r is Some ==> r->0@ == (*o)->0@ { unimplemented!() }
#[verifier::external_body] pub fn str_of(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
/// neighbours are in order
pub open spec fn ordered<T>(v: Seq<T>, name: spec_fn(T) -> Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() - 1 ==> text_order(name(#[trigger] v[i]), name(v[i + 1])) != Ordering::Greater }
/// What sorting makes of a sequence: the same elements in order; what is in order stays as it is.
pub open spec fn sorts<T>(a: Seq<T>, b: Seq<T>, name: spec_fn(T) -> Seq<char>) -> bool { &&& b.to_multiset() == a.to_multiset() &&& ordered(b, name) &&& (ordered(a, name) ==> b == a) }
/// <[T]>::sort_by is a stable sort by the comparator
#[verifier::external_body]
pub fn sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, name: Ghost<spec_fn(T) -> Seq<char>>)
    requires forall|a: &T, b: &T| f.requires((a, b)), forall|a: &T, b: &T, r: Ordering| f.ensures((a, b), r) ==> r == text_order((name@)(*a), (name@)(*b))
    ensures sorts(old(v)@, final(v)@, name@)
{ unimplemented!() }

// ---------------------------------------------------------------- the table
//@extract libs/stringtable/src/key.rs | struct Key
//@pub
//@end
//@extract libs/stringtable/src/totals.rs | struct Totals
//@pub
//@attr #[derive(Clone, Copy)]
//@end
//@extract libs/stringtable/src/package.rs | struct Package
//@pub
//@end
//@extract libs/stringtable/src/lib.rs | struct Project
//@pub
//@end
impl Key {
//@extract libs/stringtable/src/key.rs | impl Key @ fn id
//@sub &self\.id ==> str_of(&self.id)
//@spec
    ensures r@ == self.id@
//@end
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
//@extract libs/stringtable/src/key.rs | impl Key @ fn $L
//@sub self\.(\w+)\.as_deref\(\) ==> opt_str(&self.\1)
//@spec
    ensures r is Some <==> self.$L is Some, r is Some ==> r->0@ == self.$L->0@
//@end
//@endeach
}
// ---------------------------------------------------------------- totals
/// how many of the first n keys have f
pub open spec fn key_count(v: Seq<Key>, n: nat, f: spec_fn(Key) -> bool) -> nat
    decreases n
{ if n == 0 || n > v.len() { 0 } else { key_count(v, (n - 1) as nat, f) + (if f(v[n - 1]) { 1nat } else { 0nat }) } }
/// how many keys of a package have f, those in its containers included
pub open spec fn count(p: Package, f: spec_fn(Key) -> bool) -> nat
    decreases p
{ key_count(p.keys@, p.keys.len() as nat, f) + sub_count(p.containers, p.containers.len() as nat, f) }
/// ... in the first n containers
pub open spec fn sub_count(v: Vec<Package>, n: nat, f: spec_fn(Key) -> bool) -> nat
    decreases v, n
{ if n == 0 || n > v.len() { 0 } else { sub_count(v, (n - 1) as nat, f) + count(v[n - 1], f) } }
pub open spec fn any() -> spec_fn(Key) -> bool { |k: Key| true }
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
pub open spec fn has_$L() -> spec_fn(Key) -> bool { |k: Key| k.$L is Some }
//@endeach
/// For every language the number of keys that have it.
pub struct Tally {
    pub total: nat,
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    pub $L: nat,
//@endeach
}
/// The totals t say what c counts.
pub open spec fn totals_are(t: Totals, c: Tally) -> bool {
    &&& t.total == c.total
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    &&& t.$L == c.$L
//@endeach
}
pub proof fn lemma_key_count(v: Seq<Key>, n: nat, f: spec_fn(Key) -> bool)
    ensures key_count(v, n, f) <= key_count(v, n, any())
    decreases n
{ if n > 0 && n <= v.len() { lemma_key_count(v, (n - 1) as nat, f); } }
pub proof fn lemma_count(p: Package, f: spec_fn(Key) -> bool)
    ensures count(p, f) <= count(p, any())
    decreases p
{ lemma_key_count(p.keys@, p.keys.len() as nat, f); lemma_sub_count(p.containers, p.containers.len() as nat, f); }
pub proof fn lemma_sub_count(v: Vec<Package>, n: nat, f: spec_fn(Key) -> bool)
    ensures sub_count(v, n, f) <= sub_count(v, n, any())
    decreases v, n
{ if n > 0 && n <= v.len() { lemma_sub_count(v, (n - 1) as nat, f); lemma_count(v[n - 1], f); } }
pub proof fn lemma_part(v: Seq<Key>, n: nat, f: spec_fn(Key) -> bool)
    requires n <= v.len()
    ensures key_count(v, n, f) <= key_count(v, v.len(), f)
    decreases v.len() - n
{ if n < v.len() { lemma_part(v, n + 1, f); } }
pub proof fn lemma_sub_part(v: Vec<Package>, n: nat, f: spec_fn(Key) -> bool)
    requires n <= v.len()
    ensures sub_count(v, n, f) <= sub_count(v, v.len() as nat, f)
    decreases v.len() - n
{ if n < v.len() { lemma_sub_part(v, n + 1, f); } }
pub open spec fn sum(a: Totals, b: Totals) -> bool {
    &&& a.total + b.total <= u32::MAX
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    &&& a.$L + b.$L <= u32::MAX
//@endeach
}
pub open spec fn no_totals() -> Totals {
    Totals { total: 0,
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
        $L: 0,
//@endeach
    }
}
impl Totals {
    /// #[derive(Default)]
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r == no_totals() { unimplemented!() }
//@extract libs/stringtable/src/totals.rs | impl Totals @ fn inc
//@spec
    requires old(self).total < u32::MAX
    ensures *final(self) == (Totals { total: (old(self).total + 1) as u32, ..*old(self) })
//@end
//@extract libs/stringtable/src/totals.rs | impl Totals @ fn total
//@spec
    ensures r == self.total
//@end
//@extract libs/stringtable/src/totals.rs | impl Totals @ fn merge
//@spec
    requires sum(*old(self), *other)
    ensures final(self).total == old(self).total + other.total,
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
        final(self).$L == old(self).$L + other.$L,
//@endeach
//@end
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
//@extract libs/stringtable/src/totals.rs | impl Totals @ fn inc_$L
//@spec
    requires old(self).$L < u32::MAX
    ensures *final(self) == (Totals { $L: (old(self).$L + 1) as u32, ..*old(self) })
//@end
    /// `if c { totals.inc_$L(); }`
    pub fn inc_$L_if(&mut self, c: bool)
        requires old(self).$L < u32::MAX
        ensures final(self).$L == old(self).$L + (if c { 1nat } else { 0nat }), *final(self) == (Totals { $L: final(self).$L, ..*old(self) })
    { if c { self.inc_$L(); } }
//@extract libs/stringtable/src/totals.rs | impl Totals @ fn $L
//@spec
    ensures r == self.$L
//@end
//@endeach
}
/// every count is at most n
pub open spec fn bounded(c: Tally, n: nat) -> bool {
    &&& c.total <= n
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    &&& c.$L <= n
//@endeach
}
/// the number of keys, those in containers included
#[verifier::opaque]
pub open spec fn size(p: Package) -> nat { count(p, any()) }
/// the counts of the first n keys and the first m containers
#[verifier::opaque]
pub open spec fn done(p: Package, n: nat, m: nat) -> Tally {
    Tally {
        total: key_count(p.keys@, n, any()) + sub_count(p.containers, m, any()),
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
        $L: key_count(p.keys@, n, has_$L()) + sub_count(p.containers, m, has_$L()),
//@endeach
    }
}
/// the counts of a package
#[verifier::opaque]
pub open spec fn counts(p: Package) -> Tally {
    Tally {
        total: count(p, any()),
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
        $L: count(p, has_$L()),
//@endeach
    }
}
pub proof fn lemma_bounded(p: Package, n: nat, m: nat)
    requires n <= p.keys.len(), m <= p.containers.len()
    ensures bounded(done(p, n, m), size(p)), bounded(counts(p), size(p))
{
    reveal(done); reveal(counts); reveal(size);
    lemma_count(p, any()); lemma_part(p.keys@, n, any()); lemma_sub_part(p.containers, m, any());
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    lemma_count(p, has_$L()); lemma_part(p.keys@, n, has_$L()); lemma_sub_part(p.containers, m, has_$L());
//@endeach
}
pub proof fn lemma_start(p: Package)
    ensures totals_are(no_totals(), done(p, 0, 0))
{ reveal(done); }
pub proof fn lemma_all(p: Package)
    ensures done(p, p.keys.len() as nat, p.containers.len() as nat) == counts(p)
{ reveal(done); reveal(counts); }
/// one key more
pub proof fn lemma_key(p: Package, n: nat, k: Key)
    requires n < p.keys.len(), k == p.keys[n as int]
    ensures step(done(p, n, 0), k, done(p, n + 1, 0), size(p))
{
    reveal(done); reveal(size); lemma_part(p.keys@, n + 1, any());
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    lemma_key_count(p.keys@, n, has_$L());
//@endeach
}
/// b counts one key more than a, both at most n
pub open spec fn step(a: Tally, k: Key, b: Tally, n: nat) -> bool {
    &&& b.total == a.total + 1 &&& b.total <= n
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    &&& b.$L == a.$L + (if k.$L is Some { 1nat } else { 0nat }) &&& a.$L < n
//@endeach
}
/// one container more
pub open spec fn join(a: Tally, c: Tally, b: Tally) -> bool {
    &&& b.total == a.total + c.total
//@each L in original english czech french spanish italian polish portuguese russian german korean japanese chinese chinesesimp turkish swedish slovak serbocroatian norwegian icelandic hungarian greek finnish dutch
    &&& b.$L == a.$L + c.$L
//@endeach
}
pub proof fn lemma_container(p: Package, m: nat, c: Package)
    requires m < p.containers.len(), c == p.containers[m as int]
    ensures join(done(p, p.keys.len() as nat, m), counts(c), done(p, p.keys.len() as nat, m + 1)), size(c) <= size(p)
{ reveal(done); reveal(counts); reveal(size); lemma_sub_part(p.containers, m + 1, any()); }
impl Package {
//@extract libs/stringtable/src/package.rs | impl Package @ fn name
//@sub &self\.name ==> str_of(&self.name)
//@spec
    ensures r@ == self.name@
//@end
//@extract libs/stringtable/src/package.rs | impl Package @ fn totals
//@sub (?s)\bif ([^{};]*?) \{\s*totals\.inc_(\w+)\(\);\s*\} ==> totals.inc_\2_if(\1);
//@spec
    requires size(*self) <= u32::MAX
    ensures totals_are(r, counts(*self))
    decreases *self
//@entry
    proof { lemma_start(*self); lemma_all(*self); }
//@index 0
//@loop 0 for
    invariant vs0@ == self.keys@, 0 <= ix0 <= vs0@.len(), totals_are(totals, done(*self, ix0 as nat, 0)), size(*self) <= u32::MAX
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { lemma_key(*self, (ix0 - 1) as nat, *key); }
//@index 1
//@loop 1 for
    invariant *vs1 == self.containers, 0 <= ix1 <= vs1@.len(), totals_are(totals, done(*self, self.keys.len() as nat, ix1 as nat)), size(*self) <= u32::MAX
    decreases vs1@.len() - ix1
//@loopstart 1
    proof {
        lemma_bounded(*self, self.keys.len() as nat, (ix1 - 1) as nat); lemma_bounded(*self, self.keys.len() as nat, ix1 as nat); lemma_bounded(*container, 0, 0); lemma_container(*self, (ix1 - 1) as nat, *container);
        assert(*container == self.containers[ix1 - 1]);
    }
//@end
}
// ---------------------------------------------------------------- sorting
pub open spec fn key_name() -> spec_fn(Key) -> Seq<char> { |k: Key| k.id@ }
pub open spec fn package_name() -> spec_fn(Package) -> Seq<char> { |p: Package| p.name@ }
/// b is a with its keys in order, and so in every container; nothing else changes.
pub open spec fn sorted_from(a: Package, b: Package) -> bool
    decreases a
{ &&& b.name@ == a.name@ &&& sorts(a.keys@, b.keys@, key_name()) &&& b.containers.len() == a.containers.len() &&& subs_sorted_from(a.containers, b.containers, a.containers.len() as nat) }
/// ... for the first n containers
pub open spec fn subs_sorted_from(a: Vec<Package>, b: Vec<Package>, n: nat) -> bool
    decreases a, n
{ n == 0 || n > a.len() || n > b.len() || (subs_sorted_from(a, b, (n - 1) as nat) && sorted_from(a[n - 1], b[n - 1])) }
pub proof fn lemma_subs_same(a: Vec<Package>, b: Vec<Package>, c: Vec<Package>, n: nat)
    requires subs_sorted_from(a, b, n), b.len() == c.len(), forall|i: int| 0 <= i < n ==> b[i] == c[i]
    ensures subs_sorted_from(a, c, n)
    decreases n
{ if n > 0 && n <= a.len() && n <= b.len() { lemma_subs_same(a, b, c, (n - 1) as nat); } }
impl Package {
//@extract libs/stringtable/src/package.rs | impl Package @ fn sort
//@sub self\.keys\.sort_by\(\|a, b\| (.*)\); ==> sort_by(&mut self.keys, |a: &Key, b: &Key| -> (r: Ordering) ensures r == text_order(a.id@, b.id@) { \1 }, Ghost(key_name()));
//@sub (a\.\w+\(\))\.cmp\((b\.\w+\(\))\) ==> str_cmp(\1, \2)
//@sub (?s)for (\w+) in &mut self\.containers \{\s*\1\.(\w+)\(\);\s*\} ==> let mut i: usize = 0; while i < self.containers.len() { self.containers[i].\2(); i = i + 1; }
//@spec
    ensures sorted_from(*old(self), *final(self))
    decreases *old(self)
//@loop 0 while
    invariant 0 <= i <= self.containers.len(), self.containers.len() == old(self).containers.len(), self.name@ == old(self).name@, sorts(old(self).keys@, self.keys@, key_name()),
        forall|j: int| i <= j < self.containers.len() ==> self.containers[j] == old(self).containers[j], subs_sorted_from(old(self).containers, self.containers, i as nat)
    decreases self.containers.len() - i
//@loopstart 0
    let ghost before = self.containers;
    proof { assert(self.containers[i as int] == old(self).containers[i as int]); }
//@loopend 0
    proof { lemma_subs_same(old(self).containers, before, self.containers, (i - 1) as nat); }
//@end
}
/// The packages in order, each with its keys in order.
pub open spec fn project_sorted_from(a: Project, b: Project) -> bool {
    &&& b.name@ == a.name@
    &&& exists|m: Vec<Package>| sorts(a.packages@, #[trigger] m@, package_name()) && m.len() == b.packages.len() && subs_sorted_from(m, b.packages, m.len() as nat)
}
impl Project {
//@extract libs/stringtable/src/lib.rs | impl Project @ fn sort
//@sub (?s)self\s*\.packages\s*\.sort_by\(\|a, b\| (.*?)\); ==> sort_by(&mut self.packages, |a: &Package, b: &Package| -> (r: Ordering) ensures r == text_order(a.name@, b.name@) { \1 }, Ghost(package_name()));
//@sub (a\.\w+\(\))\.cmp\((b\.\w+\(\))\) ==> str_cmp(\1, \2)
//@sub (?s)for (\w+) in &mut self\.packages \{\s*\1\.(\w+)\(\);\s*\} ==> let mut i: usize = 0; while i < self.packages.len() { self.packages[i].\2(); i = i + 1; }
//@spec
    ensures project_sorted_from(*old(self), *final(self))
//@loopinit 0
    let ghost mid = self.packages;
//@loop 0 while
    invariant 0 <= i <= self.packages.len(), self.packages.len() == mid.len(), self.name@ == old(self).name@, sorts(old(self).packages@, mid@, package_name()),
        forall|j: int| i <= j < self.packages.len() ==> self.packages[j] == mid[j], subs_sorted_from(mid, self.packages, i as nat)
    decreases self.packages.len() - i
//@loopstart 0
    let ghost before = self.packages;
    proof { assert(self.packages[i as int] == mid[i as int]); }
//@loopend 0
    proof { lemma_subs_same(mid, before, self.packages, (i - 1) as nat); }
//@end
}
/// the same package, whatever the spare room of its vectors
pub open spec fn same(a: Package, b: Package) -> bool
    decreases a
{ &&& a.name@ == b.name@ &&& a.keys@ == b.keys@ &&& a.containers.len() == b.containers.len() &&& all_same(a.containers, b.containers, a.containers.len() as nat) }
pub open spec fn all_same(a: Vec<Package>, b: Vec<Package>, n: nat) -> bool
    decreases a, n
{ n == 0 || n > a.len() || n > b.len() || (all_same(a, b, (n - 1) as nat) && same(a[n - 1], b[n - 1])) }
/// C: sorting a sorted table changes nothing.
proof fn theorem_twice(a: Package, b: Package, c: Package)
    requires sorted_from(a, b), sorted_from(b, c)
    ensures same(b, c)
    decreases a
{ lemma_twice(a.containers, b.containers, c.containers, a.containers.len() as nat); }
proof fn lemma_twice(a: Vec<Package>, b: Vec<Package>, c: Vec<Package>, n: nat)
    requires subs_sorted_from(a, b, n), subs_sorted_from(b, c, n), n <= a.len(), a.len() == b.len(), b.len() == c.len()
    ensures all_same(b, c, n)
    decreases a, n
{ if n > 0 { lemma_twice(a, b, c, (n - 1) as nat); theorem_twice(a[n - 1], b[n - 1], c[n - 1]); } }
/// C: sorting keeps every key with all its texts.
proof fn theorem_kept(a: Package, b: Package, k: Key)
    requires sorted_from(a, b)
    ensures a.keys@.contains(k) <==> b.keys@.contains(k)
{ assert(a.keys@.to_multiset().contains(k) == b.keys@.to_multiset().contains(k)); broadcast use vstd::seq_lib::group_to_multiset_ensures; }
fn main() {}
} // verus!
