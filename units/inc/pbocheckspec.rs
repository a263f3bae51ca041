// What the archive's checksum and the hashes of a signature are taken over.
/// the entries in case-insensitive name order (the result of the stable sort)
pub uninterp spec fn csort(h: Seq<HV>) -> Seq<HV>;
pub axiom fn csort_ax(h: Seq<HV>)
    ensures same_elems(csort(h), h), forall|i: int, j: int| 0 <= i < j < h.len() ==> cord(#[trigger] csort(h)[i], #[trigger] csort(h)[j]) != Ordering::Greater;
/// an opened archive
pub struct Arc { pub heads: Seq<Header>, pub data: Seq<u8>, pub blob: int }
impl Arc {
    pub open spec fn sorted(self) -> Seq<HV> { csort(hvs(self.heads)) }
    /// the bytes stored under a name
    pub open spec fn content(self, name: Seq<char>) -> Seq<u8> {
        match lookup(self.heads, name) { Some(k) => entry(self.data, self.blob, self.heads, k), None => Seq::empty() }
    }
    /// all contents in name order
    pub open spec fn contents(self, n: int) -> Seq<u8>
        decreases n
    { if n <= 0 { Seq::empty() } else { self.contents(n - 1) + self.content(self.sorted()[n - 1].name) } }
    /// names of the non-empty entries in name order
    pub open spec fn names(self, n: int) -> Seq<u8>
        decreases n
    {
        if n <= 0 { Seq::empty() }
        else if self.content(self.sorted()[n - 1].name).len() == 0 { self.names(n - 1) }
        else { self.names(n - 1) + encode_utf8(key(self.sorted()[n - 1].name)) }
    }
    /// contents of the entries the signature version covers
    pub open spec fn covered(self, v: BISignVersion, n: int) -> Seq<u8>
        decreases n
    {
        if n <= 0 { Seq::empty() }
        else if !covers_name(v, self.sorted()[n - 1].name) { self.covered(v, n - 1) }
        else { self.covered(v, n - 1) + self.content(self.sorted()[n - 1].name) }
    }
    pub open spec fn covers_any(self, v: BISignVersion, n: int) -> bool
        decreases n
    { n > 0 && (covers_name(v, self.sorted()[n - 1].name) || self.covers_any(v, n - 1)) }
    pub open spec fn names_hash(self) -> Seq<u8> { sha1(self.names(self.heads.len() as int)) }
    pub open spec fn files_hash(self, v: BISignVersion) -> Seq<u8> {
        if self.covers_any(v, self.heads.len() as int) { sha1(self.covered(v, self.heads.len() as int)) } else { sha1(encode_utf8(nothing_text(v))) }
    }
    pub open spec fn summed(self, vers: Option<Header>, e: Props) -> Seq<u8> {
        (match vers { Some(h) => h.hv().bytes(), None => Seq::<u8>::empty() }) + propsec(e) + (if vers is Some { seq![0u8] } else { Seq::<u8>::empty() })
            + heads(self.sorted(), self.heads.len() as int) + blank_hv().bytes() + self.contents(self.heads.len() as int)
    }
}
pub open spec fn nothing_text(v: BISignVersion) -> Seq<char> { match v { BISignVersion::V2 => "nothing"@, BISignVersion::V3 => "gnihton"@ } }
/// which entries a signature version covers (unit sign_version)
pub uninterp spec fn ext_of(name: Seq<char>) -> Option<Seq<char>>;
pub open spec fn ext_text(name: Seq<char>) -> Seq<char> { match ext_of(name) { Some(e) => e, None => ""@ } }
pub open spec fn covers_name(v: BISignVersion, name: Seq<char>) -> bool {
    let e = ext_text(name);
    match v {
        BISignVersion::V2 => e == "fxy"@ || e == "jpg"@ || e == "lip"@ || e == "ogg"@ || e == "p3d"@ || e == "paa"@ || e == "pac"@ || e == "png"@ || e == "rtm"@ || e == "rvmat"@ || e == "tga"@ || e == "wrp"@ || e == "wss"@,
        BISignVersion::V3 => e == "bikb"@ || e == "cfg"@ || e == "ext"@ || e == "fsm"@ || e == "h"@ || e == "hpp"@ || e == "inc"@ || e == "sqf"@ || e == "sqfc"@ || e == "sqm"@ || e == "sqs"@,
    }
}
//@extract libs/common/src/sign_version.rs | enum BISignVersion
//@derive PartialEq,Eq,Copy,Clone
//@end
