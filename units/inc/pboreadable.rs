//@extract libs/pbo/src/file.rs | struct File
//@pub
//@sub I: Read ==> I: Seek
//@end
impl<'a, I: Seek> File<'a, I> {
    pub open spec fn inv(self) -> bool { self.read <= self.size }
    /// the bytes this entry still has to deliver
    pub open spec fn left(self) -> Seq<u8> {
        let t = tail_of(self.input.data(), self.input.pos());
        t.take(if self.size - self.read <= t.len() { self.size - self.read } else { t.len() as int })
    }
//@extract libs/pbo/src/file.rs | impl File<'a, I> @ fn new
//@spec
    ensures r.inv(), r.size == header.size, r.read == 0, *r.input == *old(input), *final(r.input) == *final(input)
//@end
//@extract libs/pbo/src/file.rs | impl Read for File<'_, I> @ fn read
//@sub std::io::Result ==> io::Result
//@sub std::cmp::min\( ==> min_usize(
//@sub self\.input\.read\(&mut buf\[\.\.([^\]]*)\]\) ==> self.input.read_prefix(buf, \1)
//@spec
    requires old(self).inv(), old(self).read + old(buf)@.len() <= usize::MAX
    ensures
        *final(final(self).input) == *final(old(self).input),
        match r {
            Ok(k) => {
                // the next k bytes of this entry and nothing else
                &&& final(self).inv() && final(self).size == old(self).size
                &&& k <= old(buf)@.len() && k <= old(self).left().len()
                &&& final(buf)@.take(k as int) == old(self).left().take(k as int)
                &&& final(self).left() == old(self).left().skip(k as int)
                // end of file is reported only at the end
                &&& k == 0 ==> old(buf)@.len() == 0 || old(self).left().len() == 0
                &&& final(self).input.data() == old(self).input.data()
            },
            Err(_) => I::sfaulty() && final(self).inv() && final(self).left() == old(self).left(),
        }
//@before Ok\(read\)
    proof {
        let t = tail_of(old(self).input.data(), old(self).input.pos());
        assert(old(self).left().take(read as int) =~= t.take(read as int));
        assert(tail_of(self.input.data(), self.input.pos()) =~= t.skip(read as int));
        assert(self.left() =~= old(self).left().skip(read as int));
    }
//@end
}
pub fn i64_from(x: u32) -> (r: i64) ensures r == x { x as i64 }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

//@extract libs/pbo/src/read.rs | struct ReadablePbo
//@pub
//@sub I: Seek \+ Read ==> I: Seek
//@sub IndexMap<String, String> ==> IndexMap
//@end
impl<I: Seek> ReadablePbo<I> {
    /// all offsets are representable; ReadablePbo::from has read past all of them
    pub open spec fn inv(self) -> bool { self.blob_start + total(self.headers@) <= i64::MAX }

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn file_offset
//@index 0
//@sub \.replace\('/', "\\\\"\) ==> .replace_slash()
//@spec
    requires self.inv()
    ensures
        r is Ok,
        match lookup(self.headers@, name@) {
            Some(k) => r->Ok_0 == Some((self.blob_start + start_of(self.headers@, k)) as u64),
            None => r->Ok_0 is None,
        }
//@loop 0 for
    invariant
        vs0@ == self.headers@, self.inv(), ix0 <= vs0@.len(),
        offset == self.blob_start + start_of(self.headers@, ix0 as int),
        forall|j: int| 0 <= j < ix0 ==> key(self.headers@[j].filename@) != key(name@),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { lemma_start_total(self.headers@, ix0 as int); lemma_lookup(self.headers@, name@, ix0 - 1); }
//@before Ok\(None\)
    proof { lemma_lookup_none(self.headers@, name@); }
//@end

//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn file
//@index 0
//@sub? i64::from\( ==> i64_from(
//@sub \.replace\('/', "\\\\"\) ==> .replace_slash()
//@spec
    requires old(self).inv()
    ensures
        r is Err ==> I::sfaulty(),
        r is Ok ==> final(self).headers == old(self).headers && final(self).blob_start == old(self).blob_start
            && final(self).properties == old(self).properties && final(self).vers_header == old(self).vers_header && final(self).checksum == old(self).checksum,
        r is Ok ==> match lookup(old(self).headers@, name@) {
            Some(k) => {
                &&& r->Ok_0 is Some
                &&& *final(r->Ok_0->0.input) == final(self).input
                &&& r->Ok_0->0.inv()
                &&& r->Ok_0->0.size == old(self).headers@[k].size && r->Ok_0->0.read == 0
                // exactly where file_offset says the entry begins
                &&& r->Ok_0->0.input.data() == old(self).input.data()
                &&& r->Ok_0->0.input.pos() == old(self).blob_start + start_of(old(self).headers@, k)
                &&& r->Ok_0->0.left() == entry(old(self).input.data(), old(self).blob_start as int, old(self).headers@, k)
            },
            None => r->Ok_0 is None && final(self).input.data() == old(self).input.data(),
        }
//@loop 0 for
    invariant
        vs0@ == self.headers@, self.inv(), ix0 <= vs0@.len(),
        self.headers == old(self).headers, self.blob_start == old(self).blob_start,
        self.properties == old(self).properties, self.vers_header == old(self).vers_header, self.checksum == old(self).checksum,
        self.input.data() == old(self).input.data(),
        self.input.pos() == self.blob_start + start_of(self.headers@, ix0 as int),
        forall|j: int| 0 <= j < ix0 ==> key(self.headers@[j].filename@) != key(name@),
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { lemma_start_total(self.headers@, ix0 as int); lemma_lookup(self.headers@, name@, ix0 - 1); }
//@before Ok\(None\)
    proof { lemma_lookup_none(self.headers@, name@); }
//@end
}
