#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::cmp::Ordering;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/ioext_assumed.rs
//@include inc/seqlib.rs
//@include inc/bignum.rs
//@include inc/cstrnext.rs
pub open spec fn cs(s: Seq<char>) -> Seq<u8> { encode_utf8(s) + seq![0u8] }
pub uninterp spec fn bytes_of_string(s: &String) -> &[u8];
pub broadcast axiom fn bytes_of_string_ax(s: &String) ensures (#[trigger] bytes_of_string(s))@ == encode_utf8(s@);
impl AsRef<[u8]> for &String { open spec fn ar(&self) -> &[u8] { bytes_of_string(*self) } #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }

pub struct RsaError;
pub struct PboError;
//@extract libs/signing/src/error.rs | enum Error
//@pub
//@sub rsa::errors::Error ==> RsaError
//@sub Box<std::io::Error> ==> IoError
//@sub Box<hemtt_pbo::Error> ==> PboError
//@end
impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Error { Error::Io(v) }
}
impl From<IoError> for Error { fn from(e: IoError) -> Error { Error::Io(e) } }
//@extract libs/common/src/sign_version.rs | enum BISignVersion
//@derive PartialEq,Eq,Copy,Clone
//@end
pub open spec fn ver_num(v: BISignVersion) -> u32 { match v { BISignVersion::V2 => 2u32, BISignVersion::V3 => 3u32 } }
//@extract libs/common/src/sign_version.rs | impl From<BISignVersion> for u32 @ fn from
//@sub fn from\(v: BISignVersion\) -> Self ==> fn u32_from_version(v: BISignVersion) -> u32
//@spec
    ensures r == ver_num(v)
//@end

//@extract libs/signing/src/lib.rs | fn write_biguint
//@sub output\.write_all\(&vec\)\.map_err\(std::convert::Into::into\) ==> Ok(output.write_all(&vec)?)
//@spec
    ensures
        r is Err ==> O::wfaulty(),
        r is Ok && bn.val() < pow256(size as nat) ==> final(output).written() == old(output).written() + le_bytes(bn.val(), size as nat),
//@after vec\.resize\(size, 0\);
    proof {
        let s = padto(vec@, size as nat);
        assert forall|t: Seq<u8>| le_val(t) == bn.val() && bn.val() < pow256(size as nat) implies padto(t, size as nat) == le_bytes(bn.val(), size as nat) by { lemma_padto(t, size as nat); }
    }
//@before Ok\(output
    proof { if bn.val() < pow256(size as nat) { assert(vec@ =~= padto(s0, size as nat)); } }
//@after let mut vec: Vec<u8> = bn\.to_bytes_le\(\);
    let ghost s0 = vec@;
//@end

//@extract libs/signing/src/public.rs | struct BIPublicKey
//@pub
//@end
//@extract libs/signing/src/signature.rs | struct BISign
//@pub
//@end
//@extract libs/signing/src/private.rs | struct BIPrivateKey
//@pub
//@end
pub open spec fn rsa1() -> Seq<u8> { seq![0x52u8, 0x53, 0x41, 0x31] }
pub open spec fn rsa2() -> Seq<u8> { seq![0x52u8, 0x53, 0x41, 0x32] }
pub open spec fn word24() -> Seq<u8> { seq![0u8, 0x24, 0, 0] }
/// authority, announced size, magic, width, then y
pub open spec fn head(a: Seq<char>, t: u32, m: u8, tag: Seq<u8>, length: u32, y: Seq<u8>) -> Seq<u8> {
    cs(a) + (le32(t) + (seq![m, 2u8, 0, 0] + (word24() + (tag + (le32(length) + y)))))
}
pub proof fn lemma_head(a: Seq<char>, t: u32, m: u8, tag: Seq<u8>, length: u32, y: Seq<u8>)
    requires !encode_utf8(a).contains(0u8), tag.len() == 4
    ensures ({
        let b = head(a, t, m, tag, length, y);
        let b1 = b.skip(cstr_len(b) + 1);
        let b4 = b1.skip(4).skip(4).skip(4).skip(4);
        &&& b.contains(0u8) && cstr(b) == encode_utf8(a) && valid_utf8(cstr(b))
        &&& forall|o: Seq<char>| #[trigger] encode_utf8(o) == encode_utf8(a) ==> o == a
        &&& b1.len() >= 20 + y.len() && de32(b1.take(4)) == t && de32(b4.take(4)) == length
        &&& b1.skip(4).len() >= 16 && b1.skip(4).skip(4).len() >= 12 && b1.skip(4).skip(4).skip(4).len() >= 8 && b4.len() >= 4
        &&& b4.skip(4) == y
    })
{
    broadcast use {front, back};
    lemma_le32(t); lemma_le32(length);
    let y5 = le32(length) + y;
    let y4 = tag + y5;
    let y3 = word24() + y4;
    let y2 = seq![m, 2u8, 0, 0] + y3;
    let y1 = le32(t) + y2;
    lemma_cs_front(a, y1);
    let b = head(a, t, m, tag, length, y);
    assert(b == cs(a) + y1);
    assert(y1.skip(4) == y2 && y2.skip(4) == y3 && y3.skip(4) == y4 && y4.skip(4) == y5 && y5.skip(4) == y);
}
/// what follows the name in front
pub open spec fn behind_name(b: Seq<u8>) -> Seq<u8> { if b.contains(0u8) { b.skip(cstr_len(b) + 1) } else { Seq::empty() } }
/// what an accepted file has behind its name: the size announced first is what the width of the numbers makes it, and `n` bytes of numbers are there
pub open spec fn sound(b: Seq<u8>, length: u32, announced: int, n: int) -> bool {
    let b1 = behind_name(b);
    let b4 = b1.skip(4).skip(4).skip(4).skip(4);
    b1.len() >= 20 + n && de32(b1.take(4)) as int == announced && de32(b4.take(4)) == length
}
/// the version is the word behind the first signature number of z bytes
pub open spec fn versioned(b1: Seq<u8>, z: int, v: BISignVersion) -> bool {
    let b6 = b1.skip(4).skip(4).skip(4).skip(4).skip(4).skip(4);
    de32(b6.skip(z).skip(4).skip(z).take(4)) == ver_num(v)
}
pub struct KV { pub authority: Seq<char>, pub length: u32, pub e: nat, pub n: nat }
impl KV {
    pub open spec fn z(self) -> nat { (self.length / 8) as nat }
    pub open spec fn wf(self) -> bool { !encode_utf8(self.authority).contains(0u8) && self.e < pow256(4) && self.n < pow256(self.z()) }
    pub open spec fn then(self, y: Seq<u8>) -> Seq<u8> {
        head(self.authority, (self.length / 8 + 20) as u32, 6, rsa1(), self.length, le_bytes(self.e, 4) + (le_bytes(self.n, self.z()) + y))
    }
}
/// a whole file is its pieces with nothing behind
pub open spec fn e_() -> Seq<u8> { Seq::empty() }
impl BIPublicKey {
    pub open spec fn kv(self) -> KV { KV { authority: self.authority@, length: self.length, e: self.exponent.val(), n: self.n.val() } }
//@extract libs/signing/src/public.rs | impl BIPublicKey @ fn write
//@sub crate::write_biguint ==> write_biguint
//@spec
    ensures
        r is Err ==> O::wfaulty(),
        r is Ok && self.kv().wf() ==> final(output).written() == old(output).written() + self.kv().then(e_()),
//@entry
    broadcast use bytes_of_string_ax;
//@before Ok\(\(\)\)
    proof { if self.kv().wf() { assert(output.written() =~= old(output).written() + self.kv().then(e_())); } }
//@end
//@extract libs/signing/src/public.rs | impl BIPublicKey @ fn read
//@sub input: &mut I ==> input: &mut I, Ghost(k): Ghost<KV>, Ghost(y): Ghost<Seq<u8>>
//@spec
    ensures
        // for every key k and whatever follows it
        old(input).rest() == k.then(y) && k.wf() ==> (r is Err ==> I::faulty()) && (r is Ok ==> r->Ok_0.kv() == k && final(input).rest() == y),
        // everything else it takes is no less well-formed
        r is Ok ==> sound(old(input).rest(), r->Ok_0.length, r->Ok_0.length as int / 8 + 20, 4 + r->Ok_0.length as int / 8),
//@entry
    broadcast use {front, back};
    let ghost b0 = input.rest();
    proof {
        if b0 == k.then(y) && k.wf() {
            lemma_head(k.authority, (k.length / 8 + 20) as u32, 6, rsa1(), k.length, le_bytes(k.e, 4) + (le_bytes(k.n, k.z()) + y));
            lemma_le_len(k.e, 4); lemma_le_len(k.n, k.z()); lemma_le_val(k.n, k.z()); lemma_pow4();
            lemma_le32_bytes(k.e as u32); lemma_le32(k.e as u32);
        }
    }
//@end
}
pub struct SV { pub k: KV, pub v: BISignVersion, pub s1: nat, pub s2: nat, pub s3: nat }
impl SV {
    pub open spec fn wf(self) -> bool { self.k.wf() && self.s1 < pow256(self.k.z()) && self.s2 < pow256(self.k.z()) && self.s3 < pow256(self.k.z()) }
    pub open spec fn then(self, y: Seq<u8>) -> Seq<u8> {
        let z = self.k.z();
        let w = le32((self.k.length / 8) as u32);
        self.k.then(w + (le_bytes(self.s1, z) + (le32(ver_num(self.v)) + (w + (le_bytes(self.s2, z) + (w + (le_bytes(self.s3, z) + y)))))))
    }
}
impl BISign {
    pub open spec fn sv(self) -> SV {
        SV { k: KV { authority: self.authority@, length: self.length, e: self.exponent.val(), n: self.n.val() }, v: self.version, s1: self.sig1.val(), s2: self.sig2.val(), s3: self.sig3.val() }
    }
//@extract libs/signing/src/signature.rs | impl BISign @ fn write
//@sub crate::write_biguint ==> write_biguint
//@sub self\.version\.into\(\) ==> u32_from_version(self.version)
//@spec
    ensures
        r is Err ==> O::wfaulty(),
        r is Ok && self.sv().wf() ==> final(output).written() == old(output).written() + self.sv().then(e_()),
//@entry
    broadcast use bytes_of_string_ax;
//@before Ok\(\(\)\)
    proof { if self.sv().wf() { assert(output.written() =~= old(output).written() + self.sv().then(e_())); } }
//@end
//@extract libs/signing/src/signature.rs | impl BISign @ fn read
//@sub input: &mut I ==> input: &mut I, Ghost(s): Ghost<SV>, Ghost(y): Ghost<Seq<u8>>
//@spec
    ensures
        old(input).rest() == s.then(y) && s.wf() ==> (r is Err ==> I::faulty()) && (r is Ok ==> r->Ok_0.sv() == s && final(input).rest() == y),
        r is Ok ==> sound(old(input).rest(), r->Ok_0.length, r->Ok_0.length as int / 8 + 20, 20 + 4 * (r->Ok_0.length as int / 8)) && versioned(behind_name(old(input).rest()), (r->Ok_0.length / 8) as int, r->Ok_0.version),
//@entry
    broadcast use {front, back};
    let ghost b0 = input.rest();
    proof {
        if b0 == s.then(y) && s.wf() {
            let k = s.k;
            let z = k.z();
            let w = le32((k.length / 8) as u32);
            let y8 = le_bytes(s.s3, z) + y;
            let y7 = w + y8;
            let y6 = le_bytes(s.s2, z) + y7;
            let y5 = w + y6;
            let y4 = le32(ver_num(s.v)) + y5;
            let y3 = le_bytes(s.s1, z) + y4;
            let y2 = w + y3;
            let y1 = le_bytes(k.n, z) + y2;
            let y0 = le_bytes(k.e, 4) + y1;
            lemma_head(k.authority, (k.length / 8 + 20) as u32, 6, rsa1(), k.length, y0);
            lemma_le_len(k.e, 4); lemma_le_len(k.n, z); lemma_le_val(k.n, z); lemma_pow4();
            lemma_le_len(s.s1, z); lemma_le_len(s.s2, z); lemma_le_len(s.s3, z);
            lemma_le_val(s.s1, z); lemma_le_val(s.s2, z); lemma_le_val(s.s3, z);
            lemma_le32_bytes(k.e as u32); lemma_le32(k.e as u32); lemma_le32(ver_num(s.v)); lemma_le32((k.length / 8) as u32);
            assert(y0.skip(4) == y1 && y1.skip(z as int) == y2 && y2.skip(4) == y3 && y3.skip(z as int) == y4 && y4.skip(4) == y5 && y5.skip(4) == y6
                && y6.skip(z as int) == y7 && y7.skip(4) == y8 && y8.skip(z as int) == y);
        }
    }
//@end
}
pub struct PV { pub authority: Seq<char>, pub length: u32, pub e: nat, pub n: nat, pub p: nat, pub q: nat, pub dp: nat, pub dq: nat, pub qinv: nat, pub d: nat }
impl PV {
    pub open spec fn z(self) -> nat { (self.length / 8) as nat }
    pub open spec fn h(self) -> nat { (self.length / 16) as nat }
    pub open spec fn wf(self) -> bool {
        &&& !encode_utf8(self.authority).contains(0u8) && self.e < pow256(4) && self.n < pow256(self.z()) && self.d < pow256(self.z())
        &&& self.p < pow256(self.h()) && self.q < pow256(self.h()) && self.dp < pow256(self.h()) && self.dq < pow256(self.h()) && self.qinv < pow256(self.h())
    }
    pub open spec fn then(self, y: Seq<u8>) -> Seq<u8> {
        let h = self.h();
        head(self.authority, (self.length / 16 * 9 + 20) as u32, 7, rsa2(), self.length,
            le_bytes(self.e, 4) + (le_bytes(self.n, self.z()) + (le_bytes(self.p, h) + (le_bytes(self.q, h) + (le_bytes(self.dp, h) + (le_bytes(self.dq, h) + (le_bytes(self.qinv, h) + (le_bytes(self.d, self.z()) + y))))))))
    }
}
impl BIPrivateKey {
    pub open spec fn pv(self) -> PV {
        PV { authority: self.authority@, length: self.length, e: self.exponent.val(), n: self.n.val(), p: self.p.val(), q: self.q.val(), dp: self.dp.val(), dq: self.dq.val(), qinv: self.qinv.val(), d: self.d.val() }
    }
//@extract libs/signing/src/private.rs | impl BIPrivateKey @ fn write_danger
//@sub super::write_biguint ==> write_biguint
//@spec
    ensures
        r is Err ==> O::wfaulty(),
        r is Ok && self.pv().wf() ==> final(output).written() == old(output).written() + self.pv().then(e_()),
//@entry
    broadcast use bytes_of_string_ax;
//@before Ok\(\(\)\)
    proof { if self.pv().wf() { assert(output.written() =~= old(output).written() + self.pv().then(e_())); } }
//@end
//@extract libs/signing/src/private.rs | impl BIPrivateKey @ fn read
//@sub input: &mut I ==> input: &mut I, Ghost(k): Ghost<PV>, Ghost(y): Ghost<Seq<u8>>
//@spec
    ensures
        old(input).rest() == k.then(y) && k.wf() ==> (r is Err ==> I::faulty()) && (r is Ok ==> r->Ok_0.pv() == k && final(input).rest() == y),
        r is Ok ==> sound(old(input).rest(), r->Ok_0.length, r->Ok_0.length as int / 16 * 9 + 20, 4 + 2 * (r->Ok_0.length as int / 8) + 5 * (r->Ok_0.length as int / 16)),
//@entry
    broadcast use {front, back};
    let ghost b0 = input.rest();
    proof {
        if b0 == k.then(y) && k.wf() {
            let z = k.z();
            let h = k.h();
            let y7 = le_bytes(k.d, z) + y;
            let y6 = le_bytes(k.qinv, h) + y7;
            let y5 = le_bytes(k.dq, h) + y6;
            let y4 = le_bytes(k.dp, h) + y5;
            let y3 = le_bytes(k.q, h) + y4;
            let y2 = le_bytes(k.p, h) + y3;
            let y1 = le_bytes(k.n, z) + y2;
            let y0 = le_bytes(k.e, 4) + y1;
            lemma_head(k.authority, (k.length / 16 * 9 + 20) as u32, 7, rsa2(), k.length, y0);
            lemma_le_len(k.e, 4); lemma_le_len(k.n, z); lemma_le_len(k.p, h); lemma_le_len(k.q, h); lemma_le_len(k.dp, h); lemma_le_len(k.dq, h); lemma_le_len(k.qinv, h); lemma_le_len(k.d, z);
            lemma_le_val(k.e, 4); lemma_le_val(k.n, z); lemma_le_val(k.p, h); lemma_le_val(k.q, h); lemma_le_val(k.dp, h); lemma_le_val(k.dq, h); lemma_le_val(k.qinv, h); lemma_le_val(k.d, z);
            assert(y0.skip(4) == y1 && y1.skip(z as int) == y2 && y2.skip(h as int) == y3 && y3.skip(h as int) == y4 && y4.skip(h as int) == y5 && y5.skip(h as int) == y6
                && y6.skip(h as int) == y7 && y7.skip(z as int) == y);
        }
    }
//@end
}
/// sizes of the files
pub proof fn theorem_sizes(k: KV, s: SV, p: PV)
    ensures
        k.then(e_()).len() == encode_utf8(k.authority).len() + 25 + k.z(),
        s.then(e_()).len() == encode_utf8(s.k.authority).len() + 41 + 4 * s.k.z(),
        p.then(e_()).len() == encode_utf8(p.authority).len() + 25 + 2 * p.z() + 5 * p.h(),
{
    lemma_le32(0); lemma_le_len(k.e, 4); lemma_le_len(k.n, k.z());
    lemma_le_len(s.k.e, 4); lemma_le_len(s.k.n, s.k.z()); lemma_le_len(s.s1, s.k.z()); lemma_le_len(s.s2, s.k.z()); lemma_le_len(s.s3, s.k.z());
    lemma_le_len(p.e, 4); lemma_le_len(p.n, p.z()); lemma_le_len(p.p, p.h()); lemma_le_len(p.q, p.h()); lemma_le_len(p.dp, p.h()); lemma_le_len(p.dq, p.h()); lemma_le_len(p.qinv, p.h()); lemma_le_len(p.d, p.z());
}
}
fn main(){}
