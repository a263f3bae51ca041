#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::cmp::Ordering;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/seek.rs
//@include inc/names.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/ioext_assumed.rs
//@include inc/pboheader.rs
//@include inc/pbohash.rs

//@include inc/pbocommon.rs
/// std::collections::HashMap<String, V>: a map whose iteration order is unspecified (assumed contract)
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<V> HashMap<String, V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: HashMap<String, V>) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &String) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).map().dom().contains(k@) && *v == old(self).map()[k@] && final(self).map() == old(self).map().insert(k@, *final(v)),
            None => !old(self).map().dom().contains(k@) && final(self).map() == old(self).map(),
        }
    { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k@, v)
    { unimplemented!() }
    /// the values, each once, in an unknown order
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&V>)
        ensures exists|ks: Seq<Seq<char>>| #[trigger] enumerates(ks, self.map()) && r@.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]) == self.map()[ks[i]]
    { unimplemented!() }
}
pub open spec fn enumerates<V>(ks: Seq<Seq<char>>, m: Map<Seq<char>, V>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|k: Seq<char>| ks.contains(k) <==> m.dom().contains(k)
}
/// <[T]>::sort_by: sorts by the comparator, keeping the elements (assumed contract)
#[verifier::external_body]
pub fn sort_headers<F: Fn(&Header, &Header) -> Ordering>(v: &mut Vec<Header>, f: F)
    requires
        forall|a: &Header, b: &Header| f.requires((a, b)),
        forall|a: &Header, b: &Header, r: Ordering| f.ensures((a, b), r) ==> r == vord(a.hv(), b.hv()),
    ensures
        sorted(hvs(final(v)@)), same_elems(hvs(final(v)@), hvs(old(v)@)), distinct_names(hvs(old(v)@)) ==> distinct_names(hvs(final(v)@)),
{ unimplemented!() }

/// std::io::BufWriter (assumed contract)
pub struct BufWriter<'a, O: Write> { pub inner: &'a mut O, pub pending: Ghost<Seq<u8>> }
impl<'a, O: Write> BufWriter<'a, O> {
    pub open spec fn logical(&self) -> Seq<u8> { self.inner.written() + self.pending@ }
    pub fn new(o: &'a mut O) -> (r: Self) ensures r.logical() == old(o).written(), *r.inner == *old(o), *final(r.inner) == *final(o)
    { let r = BufWriter { inner: o, pending: Ghost(Seq::empty()) }; proof { assert(r.logical() =~= r.inner.written()); } r }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures *final(final(self).inner) == *final(old(self).inner), r is Ok ==> final(self).logical() == old(self).logical() + b@, r is Err ==> O::wfaulty()
    { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures *final(final(self).inner) == *final(old(self).inner), r is Ok ==> final(self).inner.written() == old(self).logical(), r is Err ==> O::wfaulty()
    { unimplemented!() }
}
//@extract libs/pbo/src/write.rs | struct WritablePbo
//@attr #[verifier::reject_recursive_types(I)]
//@pub
//@sub I: Seek \+ Read ==> I: Seek
//@sub IndexMap<String, String> ==> IndexMap
//@end
//@include inc/pboarchive.rs
/// without the backslashes at both ends
pub open spec fn bare(s: Seq<char>) -> Seq<char> { bare_end(bare_start(s)) }
pub open spec fn bare_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == '\\' { bare_start(s.skip(1)) } else { s } }
pub open spec fn bare_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s.last() == '\\' { bare_end(s.drop_last()) } else { s } }
/// `s.trim_matches('\\').to_string()`
#[verifier::external_body] pub fn trim_backslashes(s: String) -> (r: String) ensures r@ == bare(s@) { unimplemented!() }
/// every entry is filed under its own name with back slashes
pub open spec fn filed<I>(m: Table<I>) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> k == slash(m[k].1.filename@) }
/// every header gives the length of its contents
pub open spec fn fitted<I: Seek>(m: Table<I>) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].1.size == m[k].0.data().len() }
pub proof fn lemma_sized<I: Seek>(s: Seq<HV>, m: Table<I>)
    requires covers(s, m), fitted(m)
    ensures sized(s, m)
{ assert forall|i: int| 0 <= i < s.len() implies m[slash((#[trigger] s[i]).name)].0.data().len() == s[i].size by { assert(s.contains(s[i])); assert(m[slash(s[i].name)].1.hv() == s[i]); } }
/// exactly the entries of the table
pub open spec fn covers<I>(s: Seq<HV>, m: Table<I>) -> bool {
    &&& forall|x: HV| #[trigger] s.contains(x) ==> m.dom().contains(slash(x.name)) && m[slash(x.name)].1.hv() == x
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> s.contains(m[k].1.hv())
    &&& distinct_names(s)
}
/// same entries, same bytes (positions may differ)
pub open spec fn same_table<I: Seek>(a: Table<I>, b: Table<I>) -> bool {
    &&& a.dom() =~= b.dom()
    &&& forall|k: Seq<char>| #[trigger] a.dom().contains(k) ==> a[k].0.data() == b[k].0.data() && a[k].1 == b[k].1
}
impl<I: Seek> WritablePbo<I> {
    pub open spec fn inv(self) -> bool { filed(self.files.map()) && fitted(self.files.map()) }

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn add_file
//@sub <S: Into<String>> ==>
//@sub name: S ==> name: String
//@sub name\.into\(\) ==> name
//@sub \.replace\('/', "\\\\"\) ==> .replace_slash()
//@spec
    requires old(self).inv()
    ensures
        r is Ok ==> {
            &&& final(self).inv() && final(self).properties == old(self).properties
            &&& input.data().len() <= u32::MAX
            &&& final(self).files.map().dom() == old(self).files.map().dom().insert(slash(name@))
            &&& forall|k: Seq<char>| k != slash(name@) && #[trigger] old(self).files.map().dom().contains(k) ==> final(self).files.map()[k] == old(self).files.map()[k]
            &&& final(self).files.map()[slash(name@)].0.data() == input.data()
            &&& final(self).files.map()[slash(name@)].1.hv() == (HV { name: slash(name@), mime: Mime::Blank, original: input.data().len() as u32, reserved: 0, timestamp: 0, size: input.data().len() as u32 })
        },
        r is Err ==> I::sfaulty() || input.data().len() > u32::MAX,
//@entry
    let ghost name0 = name@;
    proof { assert(slash(slash(name@)) =~= slash(name@)); }
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn new
//@sub HashMap::new\(\) ==> HashMap::<String, (I, Header)>::new()
//@spec
    ensures r.inv(), r.properties.entries() == Seq::<(Seq<char>, Seq<char>)>::empty(), r.files.map() == Map::<Seq<char>, (I, Header)>::empty()
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn add_property
//@sub <K: Into<String>, V: Into<String>> ==>
//@sub key: K ==> key: String
//@sub value: V ==> value: String
//@sub key\.into\(\) ==> key
//@sub value\.into\(\)\.trim_matches\('\\\\'\)\.to_string\(\) ==> trim_backslashes(value)
//@spec
    requires old(self).inv()
    ensures
        final(self).files == old(self).files, final(self).inv(),
        final(self).properties.entries() == pset(old(self).properties.entries(), key@, bare(value@)),
        match r { Some(v) => pget(old(self).properties.entries(), key@) == Some(v@), None => pget(old(self).properties.entries(), key@) is None },
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn remove_property
//@spec
    requires old(self).inv()
    ensures
        final(self).files == old(self).files, final(self).inv(),
        without(final(self).properties.entries(), old(self).properties.entries(), key@),
        match r { Some(v) => pget(old(self).properties.entries(), key@) == Some(v@), None => pget(old(self).properties.entries(), key@) is None },
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn file
//@sub \.replace\('/', "\\\\"\) ==> .replace_slash()
//@spec
    ensures
        final(self).properties == old(self).properties,
        match r {
            Ok(Some(f)) => {
                &&& old(self).files.map().dom().contains(slash(name@))
                &&& f.data() == old(self).files.map()[slash(name@)].0.data() && f.pos() == 0
                &&& final(self).files.map() == old(self).files.map().insert(slash(name@), (*final(f), old(self).files.map()[slash(name@)].1))
            },
            Ok(None) => !old(self).files.map().dom().contains(slash(name@)) && final(self).files.map() == old(self).files.map(),
            Err(_) => I::sfaulty(),
        }
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn files
//@index 0
//@sub in self\.files\.values\(\) ==> in seq(self.files.values())
//@sub? let mut filenames = Vec::new\(\) ==> let mut filenames: Vec<Header> = Vec::new()
//@spec
    requires self.inv()
    ensures covers(hvs(r@), self.files.map())
//@loopinit 0
    let ghost ks = choose|ks: Seq<Seq<char>>| #[trigger] enumerates(ks, self.files.map()) && vs0@.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs0@[i]) == self.files.map()[ks[i]];
//@loop 0 for
    invariant
        enumerates(ks, self.files.map()), vs0@.len() == ks.len(), ix0 <= vs0@.len(), self.inv(),
        forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs0@[i]) == self.files.map()[ks[i]],
        filenames@.len() == ix0,
        forall|i: int| 0 <= i < ix0 ==> (#[trigger] filenames@[i]).hv() == self.files.map()[ks[i]].1.hv(),
    decreases vs0@.len() - ix0
//@before filenames\s*\}\s*$
    proof { lemma_covers(hvs(filenames@), ks, self.files.map()); }
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn files_sorted
//@sub sorted\.sort_by\(\|a, b\| ==> sort_headers(&mut sorted, |a: &Header, b: &Header| -> (r: Ordering) ensures r == vord(a.hv(), b.hv())
//@sub \.cmp\( ==> .cmp_(
//@sub? \.then_with\(\|\| ==> .then_(
//@spec
    requires self.inv()
    ensures covers(hvs(r@), self.files.map()), sorted(hvs(r@))
//@after let mut sorted = self\.files\(\);
    let ghost s0 = hvs(sorted@);
//@before sorted\s*\}\s*$
    proof { lemma_covers_perm(s0, hvs(sorted@), self.files.map()); }
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn property
//@spec
    ensures match r { Some(v) => pget(self.properties.entries(), key@) == Some(v@), None => pget(self.properties.entries(), key@) is None }
//@end

//@extract libs/pbo/src/write.rs | impl<I: Seek + Read> WritablePbo<I> @ fn write
//@sub Write \+ Send ==> Write
//@sub Cursor<Vec<u8>> ==> Cursor
//@sub in &self\.properties ==> in seq(self.properties.pairs())
//@sub key == "prefix" ==> str_is(key, "prefix")
//@sub std::thread::scope\(\|s\| \{\s*s\.spawn\(\|\| \{((?:.|\n)*?)\}\);\s*s\.spawn\(\|\| \{((?:.|\n)*?)\.expect\("failed to write file"\);\s*\}\);\s*\}\); ==> \1 \2?;
//@sub? &\*buffer ==> &buffer
//@sub (self\s*\.file\(header\.filename\(\)\)\?)\s*\.expect\(("[^"]*")\) ==> expect_some(\1, \2)
//@sub checksum\.to_vec\(\)\.into\(\) ==> Checksum::from_vec(checksum.to_vec())
//@index 0
//@index 1
//@index 2
//@spec
    requires old(self).inv()
    ensures
        r is Ok ==> final(self).inv() && final(self).properties == old(self).properties,
        r is Ok ==> exists|s: Seq<HV>| {
            &&& #[trigger] covers(s, old(self).files.map()) && sorted(s)
            &&& final(output).written() == old(output).written() + archive(old(self).properties.entries(), properties, s, old(self).files.map())
            &&& r->Ok_0.0@ == sha1(signed_part(old(self).properties.entries(), properties, s, old(self).files.map()))
            // what theorem_reads_back of unit pbo_from needs
            &&& sized(s, old(self).files.map())
        },
        r is Ok ==> same_table(final(self).files.map(), old(self).files.map()),
        r is Err ==> I::sfaulty() || O::wfaulty(),
//@entry
    let ghost e = old(self).properties.entries();
    let ghost m0 = old(self).files.map();
    let ghost fo = *final(output);
    proof { reveal_strlit("prefix"); }
    broadcast use {bytes_of_string_ax, bytes_of_array_ax};
//@loopinit 0
    let ghost b0 = headers.buf();
//@loop 0 for
    invariant
        self.properties == old(self).properties, self.files == old(self).files, e == self.properties.entries(),
        pairs_of(vs0@, e), ix0 <= e.len(),
        headers.buf() =~= b0 + others(e, ix0 as int),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { assert(vs0@[ix0 - 1].0@ == e[ix0 - 1].0 && vs0@[ix0 - 1].1@ == e[ix0 - 1].1); }
//@before headers\.write_all\(&\[0\]\)\?;
    proof { assert(headers.buf() =~= vers_hv().bytes() + propsec(e)); }
//@after let files_sorted = self\.files_sorted\(\);
    let ghost s = hvs(files_sorted@);
    let ghost h0 = headers.buf();
    proof { assert(h0 =~= if properties { vers_hv().bytes() + propsec(e) + seq![0u8] } else { Seq::<u8>::empty() }); }
//@loop 1 for
    invariant
        vs1@ == files_sorted@, ix1 <= vs1@.len(), s == hvs(files_sorted@),
        self.files == old(self).files, self.properties == old(self).properties,
        headers.buf() =~= h0 + heads(s, ix1 as int),
    decreases vs1@.len() - ix1
//@loopstart 1
    proof { assert(s[ix1 - 1] == vs1@[ix1 - 1].hv()); }
//@after let mut hasher = Sha1::new\(\);
    let ghost hb = headers.buf();
    proof { assert(hb =~= h0 + heads(s, s.len() as int) + blank_hv().bytes()); }
//@after let mut buffered_output = BufWriter::new\(output\);
    let ghost w0 = buffered_output.logical();
//@loop 2 for
    invariant
        vs2@ == files_sorted@, ix2 <= vs2@.len(), s == hvs(files_sorted@), covers(s, m0), filed(m0), m0 == old(self).files.map(),
        self.properties == old(self).properties, same_table(self.files.map(), m0),
        *final(buffered_output.inner) == fo,
        hasher.fed() == hb + contents(s, m0, ix2 as int),
        buffered_output.logical() == w0 + hb + contents(s, m0, ix2 as int),
    decreases vs2@.len() - ix2
//@loopstart 2
    let ghost k = ix2 - 1;
    proof {
        assert(s[k] == header.hv());
        assert(s.contains(s[k]));
        assert(m0.dom().contains(slash(s[k].name)));
        assert(contents(s, m0, k + 1) == contents(s, m0, k) + m0[slash(s[k].name)].0.data());
    }
    let ghost f0 = hasher.fed();
    let ghost l0 = buffered_output.logical();
//@loopend 2
    proof {
        let d = m0[slash(s[k].name)].0.data();
        assert(tail_of(d, 0) =~= d);
        assert(hasher.fed() =~= f0 + d);
        assert(buffered_output.logical() =~= l0 + d);
        assert(hasher.fed() =~= hb + contents(s, m0, ix2 as int));
        assert(buffered_output.logical() =~= w0 + hb + contents(s, m0, ix2 as int));
    }
//@before Ok\(Checksum
    proof {
        let sp = signed_part(e, properties, s, m0);
        assert(sp =~= hb + contents(s, m0, s.len() as int));
        assert(checksum@ == sha1(sp));
        assert(buffered_output.inner.written() =~= w0 + archive(e, properties, s, m0));
        assert(covers(s, m0) && sorted(s));
        lemma_sized(s, m0);
    }
//@end
}

pub proof fn lemma_covers<I>(s: Seq<HV>, ks: Seq<Seq<char>>, m: Table<I>)
    requires enumerates(ks, m), filed(m), s.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] s[i] == m[ks[i]].1.hv()
    ensures covers(s, m)
{
    assert forall|i: int| 0 <= i < ks.len() implies m.dom().contains(#[trigger] ks[i]) && ks[i] == slash(s[i].name) by { assert(ks.contains(ks[i])); assert(s[i] == m[ks[i]].1.hv()); }
    assert forall|x: HV| #[trigger] s.contains(x) implies m.dom().contains(slash(x.name)) && m[slash(x.name)].1.hv() == x by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(ks[i] == slash(x.name));
    }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies s.contains(m[k].1.hv()) by {
        assert(ks.contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(s[i] == m[ks[i]].1.hv());
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies (#[trigger] s[i]).name != (#[trigger] s[j]).name by {
        assert(ks[i] != ks[j]); assert(ks[i] == slash(s[i].name)); assert(ks[j] == slash(s[j].name));
    }
}
pub proof fn lemma_covers_perm<I>(a: Seq<HV>, b: Seq<HV>, m: Table<I>)
    requires covers(a, m), same_elems(b, a), distinct_names(b)
    ensures covers(b, m)
{
    assert forall|x: HV| #[trigger] b.contains(x) implies m.dom().contains(slash(x.name)) && m[slash(x.name)].1.hv() == x by { assert(a.contains(x)); }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies b.contains(m[k].1.hv()) by { assert(a.contains(m[k].1.hv())); }
}
/// Reproducibility: whatever order the hash table was walked in, there is only one sorted order of its entries.
pub proof fn theorem_unique_order<I, J>(a: Seq<HV>, ma: Table<I>, b: Seq<HV>, mb: Table<J>)
    requires
        covers(a, ma), covers(b, mb), sorted(a), sorted(b),
        ma.dom() =~= mb.dom(), forall|k: Seq<char>| #[trigger] ma.dom().contains(k) ==> ma[k].1.hv() == mb[k].1.hv(),
    ensures a == b
{
    assert forall|x: HV| a.contains(x) <==> b.contains(x) by {
        if a.contains(x) { assert(mb.dom().contains(slash(x.name))); assert(b.contains(mb[slash(x.name)].1.hv())); }
        if b.contains(x) { assert(ma.dom().contains(slash(x.name))); assert(a.contains(ma[slash(x.name)].1.hv())); }
    }
    lemma_unique(a, b);
}
pub proof fn lemma_unique(a: Seq<HV>, b: Seq<HV>)
    requires sorted(a), sorted(b), distinct_names(a), distinct_names(b), forall|x: HV| a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        assert(b.contains(b[0]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0];
        if i != 0 {
            assert(j != 0);
            // a[0] before a[i] == b[0], and b[0] before b[j] == a[0]
            assert(vord(a[0], a[i]) != Ordering::Greater);
            assert(vord(b[0], b[j]) != Ordering::Greater);
            str_ord_total(lower(a[0].name), lower(b[0].name));
            str_ord_total(lower(b[0].name), lower(a[0].name));
            str_ord_total(a[0].name, b[0].name);
            str_ord_total(b[0].name, a[0].name);
            assert(a[0].name == b[0].name);
            assert(a[0].name != a[i].name);
        }
        assert(a[0] == b[0]);
        let a1 = a.skip(1);
        let b1 = b.skip(1);
        assert forall|x: HV| a1.contains(x) <==> b1.contains(x) by {
            if a1.contains(x) {
                let k = choose|k: int| 0 <= k < a1.len() && a1[k] == x;
                assert(a[k + 1] == x); assert(a.contains(x));
                let l = choose|l: int| 0 <= l < b.len() && b[l] == x;
                assert(l != 0) by { if l == 0 { assert(a[0] == a[k + 1]); assert(a[0].name != a[k + 1].name); } }
                assert(b1[l - 1] == x);
            }
            if b1.contains(x) {
                let k = choose|k: int| 0 <= k < b1.len() && b1[k] == x;
                assert(b[k + 1] == x); assert(b.contains(x));
                let l = choose|l: int| 0 <= l < a.len() && a[l] == x;
                assert(l != 0) by { if l == 0 { assert(b[0] == b[k + 1]); assert(b[0].name != b[k + 1].name); } }
                assert(a1[l - 1] == x);
            }
        }
        lemma_unique(a1, b1);
        assert(a =~= seq![a[0]] + a1);
        assert(b =~= seq![b[0]] + b1);
    }
}
}
fn main(){}
