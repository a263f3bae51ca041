#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::cmp::Ordering;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/seek.rs
//@include inc/names.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/ioext_assumed.rs
//@include inc/pboheader.rs
//@include inc/pbolayout.rs
//@include inc/pbohash.rs
//@include inc/pbocommon.rs
//@include inc/pbocheckspec.rs
//@include inc/seqlib.rs
//@include inc/bignum.rs

pub struct RsaError;
//@extract libs/signing/src/error.rs | enum Error
//@pub
//@sub \bError\b \{ ==> SError {
//@sub rsa::errors::Error ==> RsaError
//@sub Box<std::io::Error> ==> IoError
//@sub Box<hemtt_pbo::Error> ==> Error
//@end
impl vstd::std_specs::convert::FromSpecImpl<IoError> for SError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> SError { SError::Io(v) }
}
impl From<IoError> for SError { fn from(e: IoError) -> SError { SError::Io(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Error> for SError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Error) -> SError { SError::Pbo(v) }
}
impl From<Error> for SError { fn from(e: Error) -> SError { SError::Pbo(e) } }

impl Checksum {
//@extract libs/pbo/src/model/checksum.rs | impl Checksum @ fn as_bytes
//@spec
    ensures r@ == self.0@
//@end
//@extract libs/pbo/src/model/checksum.rs | impl AsRef<[u8]> for Checksum @ fn as_ref
//@sub fn as_ref ==> pub fn as_ref_
//@spec
    ensures r@ == self.0@
//@end
}
//@extract libs/pbo/src/read.rs | struct ReadablePbo
//@pub
//@sub I: Seek \+ Read ==> I: Seek
//@sub IndexMap<String, String> ==> IndexMap
//@end
pub open spec fn in_order(h: Seq<HV>) -> bool { forall|i: int| 0 <= i < h.len() - 1 ==> cord(#[trigger] h[i], h[i + 1]) != Ordering::Greater }
impl<I: Seek> ReadablePbo<I> {
    pub open spec fn inv(self) -> bool { self.blob_start + total(self.headers@) <= i64::MAX }
    pub open spec fn arc(self) -> Arc { Arc { heads: self.headers@, data: self.input.data(), blob: self.blob_start as int } }
    pub open spec fn same_as(self, o: Self) -> bool {
        self.headers == o.headers && self.blob_start == o.blob_start && self.properties == o.properties && self.vers_header == o.vers_header
            && self.checksum == o.checksum && self.input.data() == o.input.data()
    }
//@extract libs/pbo/src/read.rs | impl ReadablePbo<I> @ fn properties
//@sub IndexMap<String, String> ==> IndexMap
//@spec
    ensures *r == self.properties
//@end
    // the four below are proved for the real functions in unit pbo_check
    #[verifier::external_body] pub fn gen_checksum(&mut self) -> (r: Result<Checksum, Error>)
        requires old(self).inv()
        ensures
            r is Ok ==> final(self).same_as(*old(self)),
            r is Ok ==> r->Ok_0.0@ == sha1(old(self).arc().summed(old(self).vers_header, old(self).properties.entries())),
            r is Err ==> I::sfaulty(),
    { unimplemented!() }
    #[verifier::external_body] pub fn hash_filenames(&mut self) -> (r: Result<Checksum, Error>)
        requires old(self).inv()
        ensures
            r is Ok ==> final(self).same_as(*old(self)),
            r is Ok && !I::sfaulty() ==> r->Ok_0.0@ == old(self).arc().names_hash(),
            r is Err ==> I::sfaulty() || old(self).headers@.len() == 0,
            old(self).headers@.len() == 0 ==> r is Err,
    { unimplemented!() }
    #[verifier::external_body] pub fn hash_files(&mut self, version: BISignVersion) -> (r: Result<Checksum, Error>)
        requires old(self).inv()
        ensures
            r is Ok ==> final(self).same_as(*old(self)),
            r is Ok ==> r->Ok_0.0@ == old(self).arc().files_hash(version),
            r is Err ==> I::sfaulty(),
    { unimplemented!() }
    #[verifier::external_body] pub fn is_sorted(&self) -> (r: Result<(), (Vec<Header>, Vec<Header>)>)
        ensures r is Ok <==> in_order(hvs(self.headers@))
    { unimplemented!() }

    /// what the three numbers of a signature are made from
    pub open spec fn h1(self) -> Seq<u8> { sha1(self.arc().summed(self.vers_header, self.properties.entries())) }
    pub open spec fn h2(self) -> Seq<u8> { sha1(self.h1() + self.arc().names_hash() + prefix_part(self.properties.entries())) }
    pub open spec fn h3(self, v: BISignVersion) -> Seq<u8> { sha1(self.arc().files_hash(v) + self.arc().names_hash() + prefix_part(self.properties.entries())) }
}
pub open spec fn prefix_part(e: Props) -> Seq<u8> {
    match pget(e, "prefix"@) {
        Some(p) => encode_utf8(p) + (if p.len() > 0 && p.last() == '\\' { Seq::<u8>::empty() } else { seq![92u8] }),
        None => Seq::empty(),
    }
}
pub open spec fn asn1() -> Seq<u8> { seq![0x00u8, 0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14] }
/// PKCS#1 v1.5 block of the given size
pub open spec fn padded(h: Seq<u8>, size: int) -> Seq<u8> { seq![0u8, 1u8] + Seq::new((size - 38) as nat, |i: int| 255u8) + asn1() + h }
pub open spec fn padnum(h: Seq<u8>, size: int) -> nat { be_val(padded(h, size)) }
pub trait EndsX { spec fn ev(&self) -> Seq<char>; fn ends_bs(&self) -> (r: bool) ensures r == (self.ev().len() > 0 && self.ev().last() == '\\'); }
impl EndsX for String { open spec fn ev(&self) -> Seq<char> { self@ } #[verifier::external_body] fn ends_bs(&self) -> bool { unimplemented!() } }

//@extract libs/signing/src/lib.rs | fn write_biguint
//@sub \bError\b ==> SError
//@sub output\.write_all\(&vec\)\.map_err\(std::convert::Into::into\) ==> Ok(output.write_all(&vec)?)
//@spec
    ensures
        r is Err ==> O::wfaulty(),
        r is Ok && bn.val() < pow256(size as nat) ==> final(output).written() == old(output).written() + le_bytes(bn.val(), size as nat),
//@entry
    let ghost w0 = output.written();
//@after let mut vec: Vec<u8> = bn\.to_bytes_le\(\);
    let ghost s = vec@;
//@after vec\.resize\(size, 0\);
    proof {
        if bn.val() < pow256(size as nat) { lemma_padto(s, size as nat); }
        assert(vec@ =~= padto(s, size as nat));
    }
//@end

//@extract libs/signing/src/lib.rs | fn pad_hash
//@sub vec\.extend\( ==> vec.extend_from_slice(
//@spec
    requires size >= 38
    ensures r.val() == padnum(hash@, size as int)
//@before BigUint::from_bytes_be
    proof { assert(vec@ =~= padded(hash@, size as int)); }
//@end

/// only makes the text of an error
#[verifier::external_body] fn display_hashes(a: &BigUint, b: &BigUint) -> (String, String) { unimplemented!() }

//@extract libs/signing/src/lib.rs | fn generate_hashes
//@sub I: Seek \+ Read ==> I: Seek
//@sub \bError\b ==> SError
//@sub &\*hasher ==> &hasher
//@sub hasher\.update\((pbo\.hash_\w+\([^;]*\)\?)\) ==> hasher.update(\1.as_ref_())
//@sub \.ends_with\('\\\\'\) ==> .ends_bs()
//@spec
    requires old(pbo).inv()
    ensures
        r is Ok ==> final(pbo).same_as(*old(pbo)),
        r is Ok ==> length / 8 >= 38 && old(pbo).headers@.len() > 0,
        r is Ok && !I::sfaulty() ==> {
            &&& r->Ok_0.0.val() == padnum(old(pbo).h1(), (length / 8) as int)
            &&& r->Ok_0.1.val() == padnum(old(pbo).h2(), (length / 8) as int)
            &&& r->Ok_0.2.val() == padnum(old(pbo).h3(version), (length / 8) as int)
        },
        r is Err ==> I::sfaulty() || length / 8 < 38 || old(pbo).headers@.len() == 0,
//@before let hash2 =
    proof { assert(hasher.fed() =~= hash1.0@ + old(pbo).arc().names_hash() + prefix_part(old(pbo).properties.entries()) || I::sfaulty()); }
//@before let hash3 =
    proof { assert(hasher.fed() =~= old(pbo).arc().files_hash(version) + old(pbo).arc().names_hash() + prefix_part(old(pbo).properties.entries()) || I::sfaulty()); }
//@end

//@extract libs/signing/src/public.rs | struct BIPublicKey
//@pub
//@end
//@extract libs/signing/src/signature.rs | struct BISign
//@pub
//@end
//@extract libs/signing/src/private.rs | struct BIPrivateKey
//@pub
//@end

/// this signature, checked with this key, is over this archive
pub open spec fn accepts<I: Seek>(k: BIPublicKey, p: ReadablePbo<I>, s: BISign) -> bool {
    let z = (k.length / 8) as int;
    &&& k.authority@ == s.authority@ && k.length == s.length && k.exponent.val() == s.exponent.val() && k.n.val() == s.n.val()
    &&& s.sig1.val() < k.n.val() && s.sig2.val() < k.n.val() && s.sig3.val() < k.n.val()
    &&& in_order(hvs(p.headers@)) && z >= 38 && p.headers@.len() > 0
    &&& modpow(s.sig1.val(), k.exponent.val(), k.n.val()) == padnum(p.h1(), z)
    &&& modpow(s.sig2.val(), k.exponent.val(), k.n.val()) == padnum(p.h2(), z)
    &&& modpow(s.sig3.val(), k.exponent.val(), k.n.val()) == padnum(p.h3(s.version), z)
}
impl BISign {
//@extract libs/signing/src/signature.rs | impl BISign @ fn exponent
//@spec
    ensures *r == self.exponent
//@end
//@extract libs/signing/src/signature.rs | impl BISign @ fn modulus
//@spec
    ensures *r == self.n
//@end
//@extract libs/signing/src/signature.rs | impl BISign @ fn signatures_modpow
//@spec
    requires self.n.val() != 0
    ensures
        r.0.val() == modpow(self.sig1.val(), self.exponent.val(), self.n.val()),
        r.1.val() == modpow(self.sig2.val(), self.exponent.val(), self.n.val()),
        r.2.val() == modpow(self.sig3.val(), self.exponent.val(), self.n.val()),
//@end
}
impl BIPublicKey {
//@extract libs/signing/src/public.rs | impl BIPublicKey @ fn verify
//@sub I: Seek \+ Read ==> I: Seek
//@sub \bError\b ==> SError
//@sub? super::display_hashes ==> display_hashes
//@spec
    requires old(pbo).inv()
    ensures
        r is Ok ==> final(pbo).same_as(*old(pbo)),
        // accepted exactly when it is a signature of this key over this archive
        !I::sfaulty() ==> (r is Ok <==> accepts(*self, *old(pbo), *signature)),
//@end
}
impl BIPrivateKey {
//@extract libs/signing/src/private.rs | impl BIPrivateKey @ fn to_public_key
//@spec
    ensures r.authority@ == self.authority@, r.length == self.length, r.exponent.val() == self.exponent.val(), r.n.val() == self.n.val()
//@end
//@extract libs/signing/src/private.rs | impl BIPrivateKey @ fn sign
//@sub I: Seek \+ Read ==> I: Seek
//@sub \bError\b ==> SError
//@spec
    requires old(pbo).inv(), self.n.val() != 0
    ensures
        r is Ok ==> final(pbo).same_as(*old(pbo)),
        r is Err ==> I::sfaulty() || self.length / 8 < 38 || old(pbo).headers@.len() == 0,
        r is Ok && !I::sfaulty() ==> signed_by(*self, *old(pbo), version, r->Ok_0),
//@end
}
pub open spec fn signed_by<I: Seek>(k: BIPrivateKey, p: ReadablePbo<I>, v: BISignVersion, s: BISign) -> bool {
    let z = (k.length / 8) as int;
    &&& s.version == v && s.authority@ == k.authority@ && s.length == k.length && s.exponent.val() == k.exponent.val() && s.n.val() == k.n.val()
    &&& s.sig1.val() == modpow(padnum(p.h1(), z), k.d.val(), k.n.val())
    &&& s.sig2.val() == modpow(padnum(p.h2(), z), k.d.val(), k.n.val())
    &&& s.sig3.val() == modpow(padnum(p.h3(v), z), k.d.val(), k.n.val())
    &&& z >= 38 && p.headers@.len() > 0
}
/// e and d belong together (textbook RSA: raising to e and to d undo each other below n), and n has the announced width
pub open spec fn rsa_pair(n: nat, e: nat, d: nat, z: int) -> bool {
    &&& z > 0 && n >= pow256((z - 1) as nat)
    &&& forall|m: nat| m < n ==> #[trigger] modpow(m, d, n) < n && modpow(modpow(m, d, n), e, n) == m
    &&& forall|m: nat| m < n ==> modpow(#[trigger] modpow(m, e, n), d, n) == m
}
pub proof fn lemma_pad_below(h: Seq<u8>, z: int, n: nat)
    requires z >= 38, n >= pow256((z - 1) as nat), h.len() == 20
    ensures padnum(h, z) < n
{
    let p = padded(h, z);
    assert(p.len() == z && p[0] == 0);
    lemma_be_zero(p);
    lemma_be_bound(p.skip(1));
}
pub axiom fn sha1_len(s: Seq<u8>) ensures sha1(s).len() == 20;
/// S02: what is signed with a private key is accepted by its public key
pub proof fn theorem_signed_verifies<I: Seek>(k: BIPrivateKey, q: BIPublicKey, p: ReadablePbo<I>, v: BISignVersion, s: BISign)
    requires
        signed_by(k, p, v, s), rsa_pair(k.n.val(), k.exponent.val(), k.d.val(), (k.length / 8) as int), in_order(hvs(p.headers@)),
        q.authority@ == k.authority@, q.length == k.length, q.exponent.val() == k.exponent.val(), q.n.val() == k.n.val(),
    ensures accepts(q, p, s)
{
    let z = (k.length / 8) as int;
    sha1_len(p.arc().summed(p.vers_header, p.properties.entries()));
    sha1_len(p.h1() + p.arc().names_hash() + prefix_part(p.properties.entries()));
    sha1_len(p.arc().files_hash(v) + p.arc().names_hash() + prefix_part(p.properties.entries()));
    lemma_pad_below(p.h1(), z, k.n.val());
    lemma_pad_below(p.h2(), z, k.n.val());
    lemma_pad_below(p.h3(v), z, k.n.val());
}
/// S01: an accepted signature is number for number the one the private half makes
pub proof fn theorem_only_genuine<I: Seek>(k: BIPrivateKey, q: BIPublicKey, p: ReadablePbo<I>, s: BISign)
    requires
        accepts(q, p, s), rsa_pair(k.n.val(), k.exponent.val(), k.d.val(), (k.length / 8) as int),
        q.authority@ == k.authority@, q.length == k.length, q.exponent.val() == k.exponent.val(), q.n.val() == k.n.val(),
    ensures signed_by(k, p, s.version, s)
{}
}
fn main(){}
