#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/strs.rs
//@include inc/prefixnew.rs assumed
// ---------------------------------------------------------------- the virtual file system (assumed contract of vfs)
#[verifier::external_body] pub struct VfsError { x: int }
#[verifier::external_body] pub struct Error { x: int }
impl Error { #[allow(non_snake_case)] #[verifier::external_body] pub fn Prefix(e: PrefixError) -> Error { unimplemented!() } }
impl From<PrefixError> for Error { #[verifier::external_body] fn from(e: PrefixError) -> (r: Error) { unimplemented!() } }
#[verifier::external_body] pub struct ProjectConfig { x: int }
/// the file or directory exists in the file system
pub uninterp spec fn there(fs: int, at: Seq<char>) -> bool;
/// reading the file system failed
pub uninterp spec fn faulty(fs: int) -> bool;
/// where a path leads, seen from a place
pub uninterp spec fn onto(at: Seq<char>, path: Seq<char>) -> Seq<char>;
pub uninterp spec fn parent_of(at: Seq<char>) -> Seq<char>;
/// names compared without ASCII case
pub uninterp spec fn low(s: Seq<char>) -> Seq<char>;
pub open spec fn child(at: Seq<char>, name: Seq<char>) -> Seq<char> { at.push('/') + name }
pub open spec fn below(at: Seq<char>, names: Seq<Seq<char>>) -> Seq<char>
    decreases names.len()
{ if names.len() == 0 { at } else { child(below(at, names.drop_last()), names.last()) } }
pub open spec fn plain(n: Seq<char>) -> bool { n.len() > 0 && !n.contains('/') }
/// directories hold what exists below them
pub open spec fn tree(fs: int) -> bool { forall|at: Seq<char>, n: Seq<char>| #[trigger] there(fs, child(at, n)) ==> there(fs, at) }
/// no directory has two entries that differ in ASCII case only
pub open spec fn calm(fs: int) -> bool { forall|at: Seq<char>, a: Seq<char>, b: Seq<char>| #[trigger] there(fs, child(at, a)) && #[trigger] there(fs, child(at, b)) && low(a) == low(b) ==> a == b }
/// the text of a file
pub uninterp spec fn content(fs: int, at: Seq<char>) -> Seq<char>;
/// the entries below a directory, in the order of the walk
pub uninterp spec fn walked(fs: int, at: Seq<char>) -> Seq<Result<VfsPath, Error>>;
/// the walk misses nothing
pub open spec fn lists(fs: int, at: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < walked(fs, at).len() && (#[trigger] walked(fs, at)[i]) is Ok ==> (walked(fs, at)[i]->Ok_0).fs() == fs
    &&& faulty(fs) || forall|ns: Seq<Seq<char>>| ns.len() > 0 && all_plain(ns) && #[trigger] there(fs, below(at, ns)) ==> exists|i: int| 0 <= i < walked(fs, at).len() && (#[trigger] walked(fs, at)[i]) is Ok && (walked(fs, at)[i]->Ok_0).at() == below(at, ns) && (walked(fs, at)[i]->Ok_0).name() == ns.last()
}
#[verifier::external_body] pub struct Walk { x: int }
impl Walk {
    pub uninterp spec fn rest(&self) -> Seq<Result<VfsPath, Error>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<VfsPath, Error>>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    { unimplemented!() }
}
#[verifier::external_body] pub struct VfsPath { x: int }
impl VfsPath {
    pub uninterp spec fn fs(&self) -> int;
    pub uninterp spec fn at(&self) -> Seq<char>;
    pub open spec fn is(&self, fs: int, at: Seq<char>) -> bool { self.fs() == fs && self.at() == at }
    #[verifier::external_body] pub fn join(&self, p: &str) -> (r: Result<VfsPath, Error>)
        ensures match r { Ok(q) => q.is(self.fs(), onto(self.at(), p@)), Err(_) => p@.len() > 1 && p@.last() == '/' }
    { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: Result<bool, Error>)
        ensures match r { Ok(b) => b == there(self.fs(), self.at()), Err(_) => faulty(self.fs()) }
    { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.at() { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: VfsPath) ensures r.is(self.fs(), parent_of(self.at())) { unimplemented!() }
    #[verifier::external_body] pub fn read_dir(&self) -> (r: Result<Vec<VfsPath>, Error>)
        ensures tree(self.fs()), match r {
            Ok(v) => {
                &&& forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).is(self.fs(), child(self.at(), v@[i].name())) && there(self.fs(), v@[i].at()) && plain(v@[i].name())
                &&& forall|n: Seq<char>| plain(n) && #[trigger] there(self.fs(), child(self.at(), n)) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).name() == n
            },
            Err(_) => faulty(self.fs()) || forall|n: Seq<char>| !#[trigger] there(self.fs(), child(self.at(), n)),
        }
    { unimplemented!() }
    #[verifier::external_body] pub fn read_to_string(&self) -> (r: Result<String, Error>)
        ensures match r { Ok(s) => s@ == content(self.fs(), self.at()), Err(_) => faulty(self.fs()) }
    { unimplemented!() }
    #[verifier::external_body] pub fn root(&self) -> (r: VfsPath) ensures r.is(self.fs(), Seq::empty()) { unimplemented!() }
    /// everything below
    #[verifier::external_body] pub fn walk_dir(&self) -> (r: Result<Walk, Error>)
        ensures match r { Ok(w) => w.rest() == walked(self.fs(), self.at()) && lists(self.fs(), self.at()), Err(_) => faulty(self.fs()) }
    { unimplemented!() }
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn filename(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
}
impl Clone for VfsPath { #[verifier::external_body] fn clone(&self) -> (r: VfsPath) ensures r == *self { unimplemented!() } }
/// the P drive: what it has exists (assumed contract)
#[verifier::external_body] pub struct PDrive { x: int }
impl PDrive {
    pub uninterp spec fn has(&self, p: Seq<char>) -> Option<VfsPath>;
    #[verifier::external_body] pub fn path_to(&self, p: &str) -> (r: Option<VfsPath>)
        ensures r == self.has(p@), r is Some ==> there((r->0).fs(), (r->0).at())
    { unimplemented!() }
}
/// std::collections::HashMap<String, VfsPath> (assumed contract)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
pub uninterp spec fn bytes_of(s: Seq<char>) -> nat;
impl HashMap<String, VfsPath> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, VfsPath>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, VfsPath>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self.map().dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: VfsPath) -> (r: Option<VfsPath>) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
    /// `.iter().filter_map(|(base, root)| Some((base, root, f(base)?))).max_by_key(|(base, _, _)| base.len())`
    #[verifier::external_body] pub fn longest<'a, 'b, F: Fn(&String) -> Option<&'b str>>(&'a self, f: F) -> (r: Option<(&'a String, &'a VfsPath, &'b str)>)
        requires forall|b: &String| #[trigger] f.requires((b,))
        ensures match r {
            None => forall|b: &String| self.map().dom().contains(#[trigger] b@) ==> f.ensures((b,), None),
            Some((base, root, rest)) => {
                &&& self.map().dom().contains(base@) && self.map()[base@] == *root && f.ensures((base,), Some(rest))
                &&& forall|b: &String| self.map().dom().contains(#[trigger] b@) ==> f.ensures((b,), None) || bytes_of(b@) <= bytes_of(base@)
            },
        }
    { unimplemented!() }
}
/// `v.find(f)` over the entries of a directory
#[verifier::external_body] pub fn find_entry<F: Fn(&VfsPath) -> bool>(v: Vec<VfsPath>, f: F) -> (r: Option<VfsPath>)
    requires forall|e: &VfsPath| #[trigger] f.requires((e,))
    ensures match r {
        None => forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
        Some(e) => f.ensures((&e,), true) && exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == e,
    }
{ unimplemented!() }
#[verifier::external_body] pub fn same_nocase(a: String, b: &str) -> (r: bool) ensures r == (low(a@) == low(b@)) { unimplemented!() }
/// `s.trim_start_matches('/')`
pub open spec fn unslashed(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == '/' { unslashed(s.skip(1)) } else { s } }
#[verifier::external_body] pub fn str_unslash(s: &str) -> (r: &str) ensures r@ == unslashed(s@) { unimplemented!() }
/// `s.split(c).filter(|part| !part.is_empty())`
pub open spec fn full(p: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else if p.last().len() == 0 { full(p.drop_last()) } else { full(p.drop_last()).push(p.last()) } }
#[verifier::external_body] pub fn split_full(s: &str, c: char) -> (r: Vec<&str>) ensures views_str(r@) == full(split(s@, c)) { unimplemented!() }
pub open spec fn forward(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if c == '\\' { '/' } else { c }) }
#[verifier::external_body] pub fn str_forward(s: &str) -> (r: String) ensures r@ == forward(s@) { unimplemented!() }
pub fn seq<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { v }

// ---------------------------------------------------------------- the lookup
/// what is left of an absolute path below the prefix with these parts, whatever its letter case
pub open spec fn under(rest: Seq<char>, parts: Seq<Seq<char>>) -> Option<Seq<char>>
    decreases parts.len()
{
    if parts.len() == 0 { Some(rest) } else {
        match cut(rest, "/"@) { None => None, Some((first, after)) => if lowered(first) == lowered(parts[0]) { under(unslashed(after), parts.skip(1)) } else { None } }
    }
}
pub open spec fn stripped(path: Seq<char>, base: Seq<char>) -> Option<Seq<char>> { under(unslashed(path), full(split(base, '/'))) }
/// names that differ in ASCII case only
pub open spec fn alike(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]) && low(a[i]) == low(b[i]) }
pub open spec fn names(path: Seq<char>) -> Seq<Seq<char>> { full(split(path, '/')) }
/// something at that place below `at` in another ASCII case
pub open spec fn like_in(fs: int, at: Seq<char>, path: Seq<char>, found: Seq<char>) -> bool { there(fs, found) && exists|ns: Seq<Seq<char>>| #[trigger] alike(ns, names(path)) && found == below(at, ns) }
pub open spec fn nothing_like(fs: int, at: Seq<char>, path: Seq<char>) -> bool { forall|ns: Seq<Seq<char>>| #[trigger] alike(ns, names(path)) ==> !there(fs, below(at, ns)) }
proof fn lemma_prefix_there(fs: int, at: Seq<char>, ns: Seq<Seq<char>>, k: int)
    requires tree(fs), there(fs, below(at, ns)), 0 <= k <= ns.len()
    ensures there(fs, below(at, ns.take(k)))
    decreases ns.len() - k
{
    if k == ns.len() { assert(ns.take(k) =~= ns); }
    else {
        lemma_prefix_there(fs, at, ns, k + 1);
        assert(ns.take(k + 1).drop_last() =~= ns.take(k));
        assert(below(at, ns.take(k + 1)) == child(below(at, ns.take(k)), ns[k]));
    }
}

//@extract libs/workspace/src/path.rs | fn strip_pointer
//@sub path\.trim_start_matches\('/'\) ==> str_unslash(path)
//@sub after\.trim_start_matches\('/'\) ==> str_unslash(after)
//@sub (?s)base\.split\('/'\)\s*\.filter\(\|part\| !part\.is_empty\(\)\) ==> seq(split_full(base, '/'))
//@sub rest\.split_once\('/'\) ==> str_cut(rest, "/")
//@sub first\.to_lowercase\(\) != part\.to_lowercase\(\) ==> !str_is(str_lower(first).as_str(), str_lower(part).as_str())
//@index 0
//@spec
    ensures match r { Some(s) => stripped(path@, base@) == Some(s@), None => stripped(path@, base@) is None }
//@loopinit 0
    proof { assert(views_str(vs0@).skip(0) =~= views_str(vs0@)); assert(views_str(vs0@).len() == vs0@.len()); }
//@loop 0 for
    invariant 0 <= ix0 <= vs0@.len(), views_str(vs0@).len() == vs0@.len(), stripped(path@, base@) == under(rest@, views_str(vs0@).skip(ix0 as int)),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { let p = views_str(vs0@).skip(ix0 - 1); assert(p[0] == part@); assert(p.skip(1) =~= views_str(vs0@).skip(ix0 as int)); }
//@before Some\(rest\)\s*\}\s*$
    proof { assert(views_str(vs0@).skip(ix0 as int).len() == 0); }
//@end

//@extract libs/workspace/src/path.rs | fn exists_case_insensitive_from
//@sub (?s)path\.split\('/'\)\.filter\(\|name\| !name\.is_empty\(\)\) ==> seq(split_full(path, '/'))
//@sub (?s)current_path\s*\.read_dir\(\)\s*\.ok\(\)\?\s*\.find\(\|entry\| entry\.filename\(\)\.eq_ignore_ascii_case\(name\)\)\? ==> next_like(&current_path, |entry: &VfsPath| -> (o: bool) ensures o == (low(entry.name()) == low(name@)) { same_nocase(entry.filename(), name) }, Ghost(name@))?
//@sub current_path\.exists\(\)\.unwrap_or\(false\) ==> surely(current_path.exists())
//@index 0
//@spec
    ensures match r {
        Some(f) => f.fs() == from.fs() && like_in(from.fs(), from.at(), path@, f.at()),
        None => faulty(from.fs()) || (tree(from.fs()) && calm(from.fs()) ==> nothing_like(from.fs(), from.at(), path@)),
    }
//@entry
    let ghost fs = from.fs(); let ghost at = from.at();
//@loopinit 0
    let ghost mut ns: Seq<Seq<char>> = Seq::empty();
    proof { assert(views_str(vs0@).len() == vs0@.len()); }
//@loop 0 for
    invariant
        0 <= ix0 <= vs0@.len(), views_str(vs0@) == names(path@), views_str(vs0@).len() == vs0@.len(), fs == from.fs(), at == from.at(),
        current_path.is(fs, below(at, ns)), alike(ns, views_str(vs0@).take(ix0 as int)), ix0 > 0 ==> there(fs, current_path.at()),
        tree(fs) && calm(fs) ==> forall|ms: Seq<Seq<char>>| #[trigger] alike(ms, names(path@)) && there(fs, below(at, ms)) ==> ms.take(ix0 as int) =~= ns,
    decreases vs0@.len() - ix0
//@loopstart 0
    let ghost here = current_path;
    let ghost k = ix0 - 1;
    proof {
        assert(name@ == views_str(vs0@)[k]);
        assert forall|ms: Seq<Seq<char>>| tree(fs) && calm(fs) && #[trigger] alike(ms, names(path@)) && there(fs, below(at, ms)) implies ms.take(k) =~= ns && plain(ms[k]) && low(ms[k]) == low(name@) && there(fs, child(here.at(), ms[k])) by {
            lemma_prefix_there(fs, at, ms, k + 1);
            assert(ms.take(k + 1).drop_last() =~= ms.take(k));
            assert(ms.take(k + 1).last() == ms[k]);
        }
    }
//@loopend 0
    proof {
        let n = current_path.name();
        let old_ns = ns;
        ns = ns.push(n);
        assert(ns.drop_last() =~= old_ns);
        assert(alike(ns, views_str(vs0@).take(ix0 as int))) by {
            assert forall|i: int| 0 <= i < ns.len() implies plain(#[trigger] ns[i]) && low(ns[i]) == low(views_str(vs0@).take(ix0 as int)[i]) by { if i < k { assert(ns[i] == old_ns[i]); assert(plain(old_ns[i]) && low(old_ns[i]) == low(views_str(vs0@).take(k)[i])); } else { assert(ns[i] == n); assert(views_str(vs0@).take(ix0 as int)[i] == name@); } }
        }
        if tree(fs) && calm(fs) {
            assert forall|ms: Seq<Seq<char>>| #[trigger] alike(ms, names(path@)) && there(fs, below(at, ms)) implies ms.take(ix0 as int) =~= ns by {
                assert(there(fs, child(here.at(), ms[k])));
                assert(there(fs, child(here.at(), n)));
                assert(ms.take(ix0 as int) =~= ms.take(k).push(ms[k]));
            }
        }
    }
//@before if (current_path\.exists|surely)\(
    proof {
        assert(views_str(vs0@).take(ix0 as int) =~= names(path@));
        assert(current_path.at() == below(at, ns));
        assert forall|ms: Seq<Seq<char>>| tree(fs) && calm(fs) && #[trigger] alike(ms, names(path@)) && there(fs, below(at, ms)) implies ms =~= ns by { assert(ms.take(ix0 as int) =~= ms); }
    }
//@end
#[verifier::external_body] pub fn surely(r: Result<bool, Error>) -> (o: bool) ensures o == (r is Ok && r->Ok_0) { unimplemented!() }
/// `p.read_dir().ok()?.find(f)`
pub fn next_like<F: Fn(&VfsPath) -> bool>(p: &VfsPath, f: F, name: Ghost<Seq<char>>) -> (r: Option<VfsPath>)
    requires forall|e: &VfsPath| #[trigger] f.requires((e,)), forall|e: &VfsPath, o: bool| #[trigger] f.ensures((e,), o) ==> o == (low(e.name()) == low(name@))
    ensures tree(p.fs()), match r {
        Some(e) => e.is(p.fs(), child(p.at(), e.name())) && there(p.fs(), e.at()) && plain(e.name()) && low(e.name()) == low(name@),
        None => faulty(p.fs()) || forall|n: Seq<char>| plain(n) && low(n) == low(name@) ==> !#[trigger] there(p.fs(), child(p.at(), n)),
    }
{ match p.read_dir() { Ok(v) => find_entry(v, f), Err(_) => None } }
/// a place in a file system
pub struct Place { pub fs: int, pub at: Seq<char> }
pub open spec fn place(v: VfsPath) -> Place { Place { fs: v.fs(), at: v.at() } }
/// the file at the place in another ASCII case, in the workspace or in its include folder
pub open spec fn like(root: VfsPath, path: Seq<char>, found: VfsPath) -> bool {
    found.fs() == root.fs() && (like_in(root.fs(), root.at(), path, found.at()) || like_in(root.fs(), onto(root.at(), "include"@), path, found.at()))
}
//@extract libs/workspace/src/path.rs | fn exists_case_insensitive
//@sub (?s)\.or_else\(\|\| exists_case_insensitive_from\(root\.join\("include"\)\.ok\(\)\?, path\)\) ==> .or_else_(|| -> (o: Option<VfsPath>) ensures in_include(*root, path@, o) { exists_case_insensitive_from(match root.join("include") { Ok(d) => d, Err(_) => { return None; } }, path) })
//@spec
    ensures match r {
        Some(f) => like(*root, path@, f),
        None => faulty(root.fs()) || (tree(root.fs()) && calm(root.fs()) ==> nothing_like(root.fs(), root.at(), path@) && nothing_like(root.fs(), onto(root.at(), "include"@), path@)),
    }
//@entry
    proof { reveal_strlit("include"); }
//@end
pub open spec fn in_include(root: VfsPath, path: Seq<char>, o: Option<VfsPath>) -> bool {
    match o {
        Some(f) => f.fs() == root.fs() && like_in(root.fs(), onto(root.at(), "include"@), path, f.at()),
        None => faulty(root.fs()) || (tree(root.fs()) && calm(root.fs()) ==> nothing_like(root.fs(), onto(root.at(), "include"@), path)),
    }
}
pub trait OrElse { fn or_else_<F: FnOnce() -> Option<VfsPath>>(self, f: F) -> (r: Option<VfsPath>) where Self: Sized requires f.requires(()) ensures self.first() is Some ==> r == self.first(), self.first() is None ==> f.ensures((), r); spec fn first(&self) -> Option<VfsPath>; }
impl OrElse for Option<VfsPath> {
    open spec fn first(&self) -> Option<VfsPath> { *self }
    fn or_else_<F: FnOnce() -> Option<VfsPath>>(self, f: F) -> (r: Option<VfsPath>) { match self { Some(x) => Some(x), None => f() } }
}
//@extract libs/workspace/src/lib.rs | enum LayerType
//@pub
//@end
//@extract libs/workspace/src/lib.rs | struct Workspace
//@pub
//@end
//@extract libs/workspace/src/path.rs | struct WorkspacePathData
//@pub
//@end
//@extract libs/workspace/src/path.rs | struct WorkspacePath
//@pub
//@end
//@extract libs/workspace/src/path.rs | struct LocateResult
//@pub
//@end
#[verifier::external_body] pub fn is_wrong_case(on_disk: &VfsPath, requested: &str) -> (r: bool) { unimplemented!() }
/// a prefix of the path, with what is left of the path below it
pub open spec fn prefixed(w: Workspace, p: Seq<char>, base: Seq<char>, rest: Seq<char>) -> bool { w.pointers.map().dom().contains(base) && stripped(p, base) == Some(rest) }
pub open spec fn longest(w: Workspace, p: Seq<char>, base: Seq<char>) -> bool { forall|b: Seq<char>, x: Seq<char>| #[trigger] prefixed(w, p, b, x) ==> bytes_of(b) <= bytes_of(base) }
/// where an absolute path may lead when the workspace has nothing exactly there
pub open spec fn target(w: Workspace, p: Seq<char>, t: Place) -> bool {
    if forall|b: Seq<char>, x: Seq<char>| !#[trigger] prefixed(w, p, b, x) { t == (Place { fs: w.vfs.fs(), at: onto(w.vfs.at(), p) }) }
    else { exists|b: Seq<char>, x: Seq<char>| #[trigger] prefixed(w, p, b, x) && longest(w, p, b) && t == (Place { fs: w.pointers.map()[b].fs(), at: onto(w.pointers.map()[b].at(), x) }) }
}
pub open spec fn absolute(p: Seq<char>) -> bool { p.len() > 0 && p[0] == '/' }
/// the P drive answers for /a3/
pub open spec fn on_pdrive(w: Workspace, p: Seq<char>) -> Option<VfsPath> { if at(lowered(p), "/a3/"@, 0) && w.pdrive is Some { (w.pdrive->0).has(p) } else { None } }
impl WorkspacePath {
    pub open spec fn spot(&self) -> Place { place(self.data.path) }
//@extract libs/workspace/src/path.rs | impl WorkspacePath @ fn workspace
//@spec
    ensures *r == *self.data.workspace
//@end
//@extract libs/workspace/src/path.rs | impl WorkspacePath @ fn exists
//@sub \.map_err\(Into::into\) ==>
//@spec
    ensures match r { Ok(b) => b == there(self.data.path.fs(), self.data.path.at()), Err(_) => faulty(self.data.path.fs()) }
//@end
//@extract libs/workspace/src/path.rs | impl WorkspacePath @ fn join
//@sub path: impl AsRef<str> ==> path: &str
//@spec
    ensures match r { Ok(q) => q.data.path.is(self.data.path.fs(), onto(self.data.path.at(), path@)) && q.data.workspace == self.data.workspace, Err(_) => path@.len() > 1 && path@.last() == '/' }
//@end
//@extract libs/workspace/src/path.rs | impl WorkspacePath @ fn parent
//@spec
    ensures r.data.path.is(self.data.path.fs(), parent_of(self.data.path.at())), r.data.workspace == self.data.workspace
//@end
//@extract libs/workspace/src/path.rs | impl WorkspacePath @ fn locate
//@hoist is_wrong_case
//@sub pub fn locate\(&self, path: &str\) -> Result<Option<LocateResult>, Error> \{ ==> pub fn locate(&self, asked: &str) -> Result<Option<LocateResult>, Error> {
//@sub let path = path\.replace\('\\\\', "/"\) ==> let path = str_forward(asked)
//@sub path\.to_lowercase\(\) ==> str_lower(path.as_str())
//@sub path_lower\.starts_with\("/a3/"\) ==> str_starts(path_lower.as_str(), "/a3/")
//@sub path\.starts_with\('/'\) ==> str_starts_char(path.as_str(), '/')
//@sub (\w+)\.as_str\(\)\.to_string\(\) ==> str_string(\1.as_str())
//@sub (?s)\.iter\(\)\s*\.filter_map\(\|\(base, root\)\| Some\(\(base, root, (strip_pointer\([^()]*\))\?\)\)\)\s*\.max_by_key\(\|\(base, _, _\)\| base\.len\(\)\) ==> .longest(|base: &String| -> (o: Option<&str>) ensures (match o { Some(s) => stripped(path@, base@) == Some(s@), None => stripped(path@, base@) is None }) { \1 })
//@spec
    ensures match r {
        // what was found exists, and belongs to the same workspace
        Ok(Some(f)) => {
            &&& there(f.path.data.path.fs(), f.path.data.path.at()) && f.path.data.workspace == self.data.workspace
            &&& {
                let p = forward(asked@); let w = *self.data.workspace; let root = w.vfs; let spot = f.path.spot();
                let exact = Place { fs: root.fs(), at: onto(root.at(), p) };
                let near = Place { fs: self.data.path.fs(), at: onto(parent_of(self.data.path.at()), p) };
                match on_pdrive(w, p) {
                    Some(v) => spot == place(v),
                    None =>
                        if !absolute(p) { spot == near }
                        else if there(exact.fs, exact.at) { spot == exact }
                        else { exists|t: Place| #[trigger] target(w, p, t) && (if there(t.fs, t.at) { spot == t } else { like(root, t.at, f.path.data.path) || spot == near }) }
                }
            }
        },
        Ok(None) => {
            let p = forward(asked@); let w = *self.data.workspace; let root = w.vfs;
            &&& on_pdrive(w, p) is None
            &&& !there(self.data.path.fs(), onto(parent_of(self.data.path.at()), p))
            &&& absolute(p) ==> !there(root.fs(), onto(root.at(), p)) && exists|t: Place| #[trigger] target(w, p, t) && (!there(t.fs, t.at) || t.fs == root.fs() && t.at == onto(root.at(), p))
                && (faulty(root.fs()) || (tree(root.fs()) && calm(root.fs()) ==> nothing_like(root.fs(), root.at(), t.at) && nothing_like(root.fs(), onto(root.at(), "include"@), t.at)))
        },
        Err(_) => true,
    }
//@before let insensitive = if let
    let ghost t = match pointer { Some((b, root, x)) => Place { fs: root.fs(), at: onto(root.at(), x@) }, None => Place { fs: self.data.workspace.vfs.fs(), at: onto(self.data.workspace.vfs.at(), path@) } };
    proof {
        let w = *self.data.workspace;
        assert forall|b: Seq<char>, x: Seq<char>| #[trigger] prefixed(w, path@, b, x) implies (pointer is Some && bytes_of(b) <= bytes_of((pointer->0).0@)) by { axiom_string_of(b); let s = string_of(b); assert(s@ == b); }
        if let Some((b, root, x)) = pointer { assert(prefixed(w, path@, b@, x@)); assert(longest(w, path@, b@)); }
        assert(target(w, path@, t));
    }
//@end
}
// ---------------------------------------------------------------- discovery
#[verifier::external_body] pub fn str_contains(s: &str, t: &str) -> (r: bool) ensures r == (find(s@, t@) >= 0) { unimplemented!() }
//@extract libs/common/src/prefix.rs | const FILES
//@sub \[&str; ==> [&'static str;
//@end
/// `FILES.contains(&s)`
#[verifier::external_body] pub fn one_of(f: [&'static str; 4], s: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < 4 && #[trigger] f@[i]@ == s@) { unimplemented!() }
/// files that hold the prefix of an addon, in lower case
pub open spec fn prefix_file(n: Seq<char>) -> bool { n == "$pboprefix$"@ || n == "$pboprefix$.txt"@ || n == "pboprefix.txt"@ || n == "$prefix$"@ }
pub fn files_has(s: &str) -> (r: bool)
    ensures r == prefix_file(s@)
{
    let f = FILES;
    let r = one_of(f, s);
    proof { assert(f@.len() == 4); if prefix_file(s@) { if s@ == "$pboprefix$"@ { assert(f@[0]@ == s@); } else if s@ == "$pboprefix$.txt"@ { assert(f@[1]@ == s@); } else if s@ == "pboprefix.txt"@ { assert(f@[2]@ == s@); } else { assert(f@[3]@ == s@); } } }
    r
}
pub enum Role { Addon, Mission, Prefix, Nothing }
/// what a file found is
pub open spec fn role(e: VfsPath) -> Role {
    let n = lowered(e.name());
    if find(e.at(), ".hemtt"@) >= 0 { Role::Nothing } else if n == "config.cpp"@ { Role::Addon } else if n == "mission.sqm"@ { Role::Mission } else if prefix_file(n) { Role::Prefix } else { Role::Nothing }
}
/// the files of a kind among the entries
pub open spec fn those(k: Role, es: Seq<Result<VfsPath, Error>>) -> Seq<VfsPath>
    decreases es.len()
{ if es.len() == 0 { Seq::empty() } else { match es.last() { Ok(e) if role(e) == k => those(k, es.drop_last()).push(e), _ => those(k, es.drop_last()) } } }
pub open spec fn folder(i: int) -> Seq<char> { if i == 0 { "include"@ } else if i == 1 { "optionals"@ } else { "addons"@ } }
/// what is below the first n of include, optionals and addons
pub open spec fn entries(fs: int, at: Seq<char>, n: int) -> Seq<Result<VfsPath, Error>>
    decreases n
{ if n <= 0 { Seq::empty() } else { let d = onto(at, folder(n - 1)); if there(fs, d) { entries(fs, at, n - 1) + walked(fs, d) } else { entries(fs, at, n - 1) } } }
/// the path the prefix of a prefix file stands for: lower case, slashes forward
pub open spec fn key(e: VfsPath) -> Seq<char> { seq!['/'] + forward(lowered(joined(meaning(content(e.fs(), e.at()))->0, '\\'))) }
/// every prefix file leads to its folder, no two to the same path, and nothing else was added
pub open spec fn registered(was: Map<Seq<char>, VfsPath>, now: Map<Seq<char>, VfsPath>, ps: Seq<VfsPath>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> meaning(content((#[trigger] ps[i]).fs(), ps[i].at())) is Some && now.dom().contains(key(ps[i])) && now[key(ps[i])].is(ps[i].fs(), parent_of(ps[i].at())) && !was.dom().contains(key(ps[i]))
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> key(#[trigger] ps[i]) != key(#[trigger] ps[j])
    &&& forall|k: Seq<char>| was.dom().contains(k) ==> #[trigger] now.dom().contains(k) && now[k] == was[k]
    &&& forall|k: Seq<char>| #[trigger] now.dom().contains(k) ==> was.dom().contains(k) || exists|i: int| 0 <= i < ps.len() && key(#[trigger] ps[i]) == k
}
/// why discovery may be refused
pub open spec fn unreadable(was: Map<Seq<char>, VfsPath>, ps: Seq<VfsPath>) -> bool {
    ||| exists|i: int| 0 <= i < ps.len() && meaning(content((#[trigger] ps[i]).fs(), ps[i].at())) is None
    ||| exists|i: int| 0 <= i < ps.len() && was.dom().contains(key(#[trigger] ps[i]))
    ||| exists|i: int, j: int| 0 <= i < j < ps.len() && key(#[trigger] ps[i]) == key(#[trigger] ps[j])
}
proof fn lemma_register(was: Map<Seq<char>, VfsPath>, now: Map<Seq<char>, VfsPath>, ps: Seq<VfsPath>, e: VfsPath)
    requires registered(was, now, ps), meaning(content(e.fs(), e.at())) is Some, !now.dom().contains(key(e))
    ensures forall|v: VfsPath| v.is(e.fs(), parent_of(e.at())) ==> registered(was, #[trigger] now.insert(key(e), v), ps.push(e))
{
    let qs = ps.push(e);
    assert forall|v: VfsPath| v.is(e.fs(), parent_of(e.at())) implies registered(was, #[trigger] now.insert(key(e), v), qs) by {
        let m = now.insert(key(e), v);
        assert forall|i: int| 0 <= i < qs.len() implies meaning(content((#[trigger] qs[i]).fs(), qs[i].at())) is Some && m.dom().contains(key(qs[i])) && m[key(qs[i])].is(qs[i].fs(), parent_of(qs[i].at())) && !was.dom().contains(key(qs[i])) by {
            if i < ps.len() { assert(qs[i] == ps[i]); } else { if was.dom().contains(key(e)) { assert(now.dom().contains(key(e))); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < qs.len() implies key(#[trigger] qs[i]) != key(#[trigger] qs[j]) by { assert(qs[i] == ps[i]); if j < ps.len() { assert(qs[j] == ps[j]); } else { assert(now.dom().contains(key(ps[i]))); } }
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies was.dom().contains(k) || exists|i: int| 0 <= i < qs.len() && key(#[trigger] qs[i]) == k by {
            if k == key(e) { assert(qs[ps.len() as int] == e); }
            else { assert(now.dom().contains(k)); if !was.dom().contains(k) { let i = choose|i: int| 0 <= i < ps.len() && key(#[trigger] ps[i]) == k; assert(qs[i] == ps[i]); } }
        }
    }
}
proof fn lemma_those_split(k: Role, a: Seq<Result<VfsPath, Error>>, b: Seq<Result<VfsPath, Error>>)
    ensures those(k, a + b) == those(k, a) + those(k, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(those(k, a) + those(k, b) =~= those(k, a)); }
    else { lemma_those_split(k, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(those(k, a) + those(k, b) =~= those(k, a + b)); }
}
proof fn lemma_those_prefix(k: Role, a: Seq<Result<VfsPath, Error>>, b: Seq<Result<VfsPath, Error>>)
    ensures those(k, a).len() <= those(k, a + b).len(), forall|i: int| 0 <= i < those(k, a).len() ==> #[trigger] those(k, a)[i] == those(k, a + b)[i]
{ lemma_those_split(k, a, b); }
proof fn lemma_unreadable(was: Map<Seq<char>, VfsPath>, a: Seq<Result<VfsPath, Error>>, b: Seq<Result<VfsPath, Error>>)
    requires unreadable(was, those(Role::Prefix, a))
    ensures unreadable(was, those(Role::Prefix, a + b))
{
    let k = Role::Prefix;
    lemma_those_prefix(k, a, b);
    let p = those(k, a); let q = those(k, a + b);
    if exists|i: int| 0 <= i < p.len() && meaning(content((#[trigger] p[i]).fs(), p[i].at())) is None { let i = choose|i: int| 0 <= i < p.len() && meaning(content((#[trigger] p[i]).fs(), p[i].at())) is None; assert(q[i] == p[i]); }
    else if exists|i: int| 0 <= i < p.len() && was.dom().contains(key(#[trigger] p[i])) { let i = choose|i: int| 0 <= i < p.len() && was.dom().contains(key(#[trigger] p[i])); assert(q[i] == p[i]); }
    else { let (i, j) = choose|i: int, j: int| 0 <= i < j < p.len() && key(#[trigger] p[i]) == key(#[trigger] p[j]); assert(q[i] == p[i] && q[j] == p[j]); }
}
proof fn lemma_entries(fs: int, at: Seq<char>, n: int, m: int)
    requires 0 <= n <= m
    ensures exists|b: Seq<Result<VfsPath, Error>>| entries(fs, at, m) == #[trigger] (entries(fs, at, n) + b)
    decreases m - n
{
    if n == m { assert(entries(fs, at, m) =~= entries(fs, at, n) + Seq::<Result<VfsPath, Error>>::empty()); }
    else {
        lemma_entries(fs, at, n, m - 1);
        let b = choose|b: Seq<Result<VfsPath, Error>>| entries(fs, at, m - 1) == #[trigger] (entries(fs, at, n) + b);
        let d = onto(at, folder(m - 1));
        if there(fs, d) { assert(entries(fs, at, m) =~= entries(fs, at, n) + (b + walked(fs, d))); } else { assert(entries(fs, at, m) == entries(fs, at, n) + b); }
    }
}
/// discovery stopped at the last of the entries es, which are the first of all entries
proof fn lemma_stopped(was: Map<Seq<char>, VfsPath>, fs: int, at: Seq<char>, n: int, es: Seq<Result<VfsPath, Error>>, rest: Seq<Result<VfsPath, Error>>)
    requires unreadable(was, those(Role::Prefix, es)), 0 <= n <= 3, es + rest == entries(fs, at, n)
    ensures unreadable(was, those(Role::Prefix, entries(fs, at, 3)))
{
    lemma_unreadable(was, es, rest);
    lemma_entries(fs, at, n, 3);
    let b = choose|b: Seq<Result<VfsPath, Error>>| entries(fs, at, 3) == #[trigger] (entries(fs, at, n) + b);
    lemma_unreadable(was, entries(fs, at, n), b);
}
/// `prefix.to_string()`
pub fn prefix_text(p: &Prefix) -> (r: String) ensures r@ == joined(p.parts(), '\\') {
    let mut f = Formatter::new();
    let _ = p.fmt(&mut f);
    proof { assert(Seq::<char>::empty() + joined(p.parts(), '\\') =~= joined(p.parts(), '\\')); }
    f.text()
}
impl Workspace {
    pub open spec fn all(&self) -> Seq<Result<VfsPath, Error>> { entries(self.vfs.fs(), self.vfs.at(), 3) }
    pub open spec fn same(&self, was: Workspace) -> bool { self.vfs == was.vfs && self.layers == was.layers && self.project == was.project && self.pdrive == was.pdrive }
    /// what was found among these entries
    pub open spec fn holds(&self, was: Workspace, es: Seq<Result<VfsPath, Error>>) -> bool {
        &&& registered(was.pointers.map(), self.pointers.map(), those(Role::Prefix, es))
        &&& self.addons@ == was.addons@ + those(Role::Addon, es) && self.missions@ == was.missions@ + those(Role::Mission, es)
    }
    /// the files it was opened with
    pub open spec fn discovered(&self, was: Workspace) -> bool { self.holds(was, self.all()) }
//@extract libs/workspace/src/lib.rs | impl Workspace @ fn discover
//@sub entry\.as_str\(\)\.contains\("\.hemtt"\) ==> str_contains(entry.as_str(), ".hemtt")
//@sub match entry\.filename\(\)\.to_lowercase\(\)\.as_str\(\) ==> match str_lower(entry.filename().as_str()).as_str()
//@sub (?s)FILES\.contains\(&entry\.filename\(\)\.to_lowercase\(\)\.as_str\(\)\) ==> files_has(str_lower(entry.filename().as_str()).as_str())
//@sub (?s)prefix\.to_string\(\)\.to_lowercase\(\)\.replace\('\\\\', "/"\) ==> str_forward(str_lower(prefix_text(&prefix).as_str()).as_str())
//@sub (?s)hemtt_common::prefix::Error::DuplicatePrefix\(\s*prefix\.to_string\(\),?\s*\) ==> PrefixError::DuplicatePrefix(prefix_text(&prefix))
//@fmt
//@index 0
//@desugar 1
//@spec
    ensures
        final(self).same(*old(self)),
        r is Ok ==> final(self).discovered(*old(self)),
        r is Err ==> faulty(old(self).vfs.fs()) || unreadable(old(self).pointers.map(), those(Role::Prefix, old(self).all())),
//@entry
    let ghost was = *self;
    let ghost fs = self.vfs.fs();
    let ghost at = self.vfs.at();
    let ghost mut es: Seq<Result<VfsPath, Error>> = Seq::empty();
//@loopinit 0
    proof {
        reveal_strlit("include"); reveal_strlit("optionals"); reveal_strlit("addons");
        assert(was.addons@ + those(Role::Addon, es) =~= was.addons@);
        assert(was.missions@ + those(Role::Mission, es) =~= was.missions@);
    }
//@loop 0 for
    invariant
        0 <= ix0 <= 3, vs0@.len() == 3, vs0@[0]@ == folder(0), vs0@[1]@ == folder(1), vs0@[2]@ == folder(2), forall|i: int| 0 <= i < 3 ==> (#[trigger] vs0@[i])@.last() != '/',
        was == *old(self), fs == was.vfs.fs(), at == was.vfs.at(), self.same(was), es == entries(fs, at, ix0 as int), self.holds(was, es),
    decreases 3 - ix0
//@loopstart 0
    let ghost before = es;
//@loopinit 1
    proof { assert(es + it1.rest() =~= entries(fs, at, ix0 as int)); }
//@loop 1 for
    invariant
        1 <= ix0 <= 3, was == *old(self), fs == was.vfs.fs(), at == was.vfs.at(), self.same(was), self.holds(was, es), es + it1.rest() == entries(fs, at, ix0 as int),
        forall|i: int| 0 <= i < it1.rest().len() && (#[trigger] it1.rest()[i]) is Ok ==> (it1.rest()[i]->Ok_0).fs() == fs,
    ensures it1.rest().len() == 0
    decreases it1.rest().len()
//@loopstart 1
    let ghost es0 = es;
    proof {
        es = es.push(entry);
        assert(es.drop_last() =~= es0);
        assert(es + it1.rest() =~= entries(fs, at, ix0 as int));
        if entry is Ok {
            let e = entry->Ok_0;
            if role(e) == Role::Prefix {
                let ps0 = those(Role::Prefix, es0); let ps = those(Role::Prefix, es); let n = ps0.len() as int;
                assert(ps == ps0.push(e) && ps[n] == e);
                let m = self.pointers.map();
                if meaning(content(e.fs(), e.at())) is None { assert(unreadable(was.pointers.map(), ps)); }
                else if m.dom().contains(key(e)) {
                    if !was.pointers.map().dom().contains(key(e)) {
                        let i = choose|i: int| 0 <= i < ps0.len() && key(#[trigger] ps0[i]) == key(e);
                        assert(ps[i] == ps0[i] && key(ps[i]) == key(ps[n]));
                    }
                    assert(unreadable(was.pointers.map(), ps));
                }
                if unreadable(was.pointers.map(), ps) { lemma_stopped(was.pointers.map(), fs, at, ix0 as int, es, it1.rest()); }
            }
        }
    }
//@before if self\.pointers\.contains_key
    proof { reveal_strlit("/"); assert(prefix_str@ =~= key(entry)); }
//@before self\.pointers\.insert
    proof { lemma_register(was.pointers.map(), self.pointers.map(), those(Role::Prefix, es0), entry); }
//@loopend 0
    proof { assert(es + Seq::<Result<VfsPath, Error>>::empty() =~= es); }
//@end
}
/// a workspace with nothing registered
pub open spec fn fresh(w: Workspace) -> bool { w.pointers.map() == Map::<Seq<char>, VfsPath>::empty() && w.addons@.len() == 0 && w.missions@.len() == 0 }
#[verifier::external_body] pub struct PDriveOption { x: int }
#[verifier::external_body] pub fn required(p: &PDriveOption) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn pdrive_search() -> (r: Option<PDrive>) { unimplemented!() }
impl Workspace {
//@extract libs/workspace/src/lib.rs | impl Workspace @ fn create
//@sub pdrive == &PDriveOption::Require ==> required(pdrive)
//@sub path::WorkspacePathData ==> WorkspacePathData
//@spec
    ensures match r {
        Ok(p) => {
            let w = *p.data.workspace;
            p.data.path.is(vfs.fs(), Seq::empty()) && w.vfs == vfs && w.layers == layers && w.project == project && if discovery { exists|was: Workspace| #[trigger] fresh(was) && was.vfs == vfs && w.discovered(was) } else { fresh(w) }
        },
        Err(_) => discovery && (faulty(vfs.fs()) || unreadable(Map::empty(), those(Role::Prefix, entries(vfs.fs(), vfs.at(), 3)))),
    }
//@before if discovery \{
    let ghost was = workspace;
//@before Ok\(WorkspacePath \{
    proof { assert(fresh(was)); }
//@end
}
/// Two addons with the same prefix, in whatever letter case and below whatever folders: the workspace is not opened.
proof fn theorem_reported(now: Map<Seq<char>, VfsPath>, ps: Seq<VfsPath>, i: int, j: int)
    requires 0 <= i < j < ps.len(), key(ps[i]) == key(ps[j])
    ensures !registered(Map::empty(), now, ps)
{ assert(ps[i] == ps[i] && ps[j] == ps[j]); }
/// every file of include, optionals and addons is among the entries
proof fn theorem_seen(fs: int, at: Seq<char>, f: int, ns: Seq<Seq<char>>)
    requires 0 <= f < 3, !faulty(fs), lists(fs, onto(at, folder(f))), there(fs, onto(at, folder(f))), ns.len() > 0, all_plain(ns), there(fs, below(onto(at, folder(f)), ns))
    ensures exists|i: int| 0 <= i < entries(fs, at, 3).len() && (#[trigger] entries(fs, at, 3)[i]) is Ok && (entries(fs, at, 3)[i]->Ok_0).at() == below(onto(at, folder(f)), ns) && (entries(fs, at, 3)[i]->Ok_0).name() == ns.last()
{
    let d = onto(at, folder(f));
    let k = choose|i: int| 0 <= i < walked(fs, d).len() && (#[trigger] walked(fs, d)[i]) is Ok && (walked(fs, d)[i]->Ok_0).at() == below(d, ns) && (walked(fs, d)[i]->Ok_0).name() == ns.last();
    let a = entries(fs, at, f);
    assert(entries(fs, at, f + 1) == a + walked(fs, d));
    lemma_entries(fs, at, f + 1, 3);
    let b = choose|b: Seq<Result<VfsPath, Error>>| entries(fs, at, 3) == #[trigger] (entries(fs, at, f + 1) + b);
    assert(entries(fs, at, 3)[a.len() + k] == walked(fs, d)[k]);
}
/// an entry of a kind is among those of the kind
proof fn theorem_kept(k: Role, es: Seq<Result<VfsPath, Error>>, i: int)
    requires 0 <= i < es.len(), es[i] is Ok, role(es[i]->Ok_0) == k
    ensures those(k, es).contains(es[i]->Ok_0)
    decreases es.len()
{
    if i == es.len() - 1 { assert(those(k, es).last() == es[i]->Ok_0); }
    else {
        theorem_kept(k, es.drop_last(), i);
        let q = those(k, es.drop_last());
        let x = choose|x: int| 0 <= x < q.len() && q[x] == es[i]->Ok_0;
        assert(those(k, es)[x] == q[x]);
    }
}
// ---------------------------------------------------------------- what the prefix of an addon stands for
pub open spec fn lead(ps: Seq<Seq<char>>, rest: Seq<char>) -> Seq<char>
    decreases ps.len()
{ if ps.len() == 0 { rest } else { ps[0].push('/') + lead(ps.skip(1), rest) } }
pub open spec fn all_plain(ps: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> plain(#[trigger] ps[i]) }
proof fn lemma_cut_first(a: Seq<char>, b: Seq<char>)
    requires !a.contains('/')
    ensures cut(a.push('/') + b, "/"@) == Some((a, b))
    decreases a.len()
{
    reveal_strlit("/");
    let s = a.push('/') + b;
    assert("/"@ =~= seq!['/']);
    lemma_find_first(a, b);
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int + 1) =~= b);
}
proof fn lemma_find_first(a: Seq<char>, b: Seq<char>)
    requires !a.contains('/')
    ensures find(a.push('/') + b, seq!['/']) == a.len()
    decreases a.len()
{
    let s = a.push('/') + b;
    if a.len() == 0 { assert(s.subrange(0, 1) =~= seq!['/']); }
    else {
        assert(a.contains(a[0]));
        if at(s, seq!['/'], 0) { assert(s.subrange(0, 1)[0] == s[0]); assert(s[0] == a[0]); }
        assert(s.skip(1) =~= a.skip(1).push('/') + b);
        if a.skip(1).contains('/') { let i = choose|i: int| 0 <= i < a.skip(1).len() && a.skip(1)[i] == '/'; assert(a[i + 1] == '/'); }
        lemma_find_first(a.skip(1), b);
    }
}
proof fn lemma_under(ps: Seq<Seq<char>>, qs: Seq<Seq<char>>, rest: Seq<char>)
    requires ps.len() == qs.len(), all_plain(ps), forall|i: int| 0 <= i < ps.len() ==> lowered(#[trigger] ps[i]) == lowered(qs[i]), unslashed(rest) == rest
    ensures under(lead(ps, rest), qs) == Some(rest), unslashed(lead(ps, rest)) == lead(ps, rest)
    decreases ps.len()
{
    if ps.len() > 0 {
        let r = lead(ps.skip(1), rest);
        assert(plain(ps[0]));
        assert forall|i: int| 0 <= i < ps.skip(1).len() implies plain(#[trigger] ps.skip(1)[i]) && lowered(ps.skip(1)[i]) == lowered(qs.skip(1)[i]) by { assert(ps.skip(1)[i] == ps[i + 1]); }
        lemma_under(ps.skip(1), qs.skip(1), rest);
        lemma_cut_first(ps[0], r);
        let s = lead(ps, rest);
        assert(s[0] == ps[0][0]);
        assert(ps[0].contains(ps[0][0]));
    }
}
proof fn lemma_parts(qs: Seq<Seq<char>>)
    requires all_plain(qs)
    ensures split(below(Seq::empty(), qs), '/') == seq![Seq::<char>::empty()] + qs, full(seq![Seq::<char>::empty()] + qs) == qs
    decreases qs.len()
{
    let e = seq![Seq::<char>::empty()];
    if qs.len() == 0 { assert(e + qs =~= e); assert(full(e.drop_last()) =~= qs); }
    else {
        let d = qs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies plain(#[trigger] d[i]) by { assert(d[i] == qs[i]); }
        lemma_parts(d);
        assert(plain(qs.last())) by { assert(qs[qs.len() - 1] == qs.last()); }
        lemma_split_more(below(Seq::empty(), d), qs.last(), '/');
        assert((e + d).push(qs.last()) =~= e + qs);
        assert((e + qs).drop_last() =~= e + d);
        assert(d.push(qs.last()) =~= qs);
    }
}
/// An absolute path that begins with the parts of an addon's prefix, in any letter case, is taken below that addon: what follows the prefix is looked up there.
proof fn theorem_prefix(ps: Seq<Seq<char>>, qs: Seq<Seq<char>>, rest: Seq<char>)
    requires ps.len() == qs.len(), all_plain(ps), all_plain(qs), forall|i: int| 0 <= i < ps.len() ==> lowered(#[trigger] ps[i]) == lowered(qs[i]), rest.len() > 0 ==> rest[0] != '/'
    ensures stripped(seq!['/'] + lead(ps, rest), below(Seq::empty(), qs)) == Some(rest)
{
    lemma_parts(qs); lemma_under(ps, qs, rest);
    let s = seq!['/'] + lead(ps, rest);
    assert(s.skip(1) =~= lead(ps, rest));
}
/// every text is that of some String
pub uninterp spec fn string_of(s: Seq<char>) -> &'static String;
pub broadcast axiom fn axiom_string_of(s: Seq<char>) ensures #[trigger] string_of(s)@ == s;
/// In an open workspace a path that begins with the prefix of an addon is taken below the folder that holds the prefix file.
proof fn theorem_addon(w: Workspace, was: Workspace, e: VfsPath, ps: Seq<Seq<char>>, qs: Seq<Seq<char>>, rest: Seq<char>)
    requires fresh(was), w.discovered(was), those(Role::Prefix, w.all()).contains(e), key(e) == below(Seq::empty(), qs),
        ps.len() == qs.len(), all_plain(ps), all_plain(qs), forall|i: int| 0 <= i < ps.len() ==> lowered(#[trigger] ps[i]) == lowered(qs[i]), rest.len() > 0 ==> rest[0] != '/'
    ensures prefixed(w, seq!['/'] + lead(ps, rest), key(e), rest), w.pointers.map()[key(e)].is(e.fs(), parent_of(e.at()))
{
    theorem_prefix(ps, qs, rest);
    let f = those(Role::Prefix, w.all());
    let i = choose|i: int| 0 <= i < f.len() && f[i] == e;
    assert(f[i] == e);
}
}
fn main() {}
