use crate::c_pbo::{back, build, gen_spec, pack, Spec};
use crate::*;
use hemtt_pbo::{BISignVersion, ReadablePbo};
use hemtt_signing::{BIPrivateKey, BIPublicKey, BISign};
use rsa::BigUint;
use sha1::{Digest, Sha1};
use std::io::Cursor;

type P = ReadablePbo<Cursor<Vec<u8>>>;
fn es(e: hemtt_signing::Error) -> String {
    format!("error: {e}")
}
fn open(b: &[u8]) -> Result<P, String> {
    ReadablePbo::from(Cursor::new(b.to_vec())).map_err(|e| format!("open: {e}"))
}

const V2: &[&str] = &["fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss"];
const V3: &[&str] = &["bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs"];
/// extension as the OS path rules see it on this platform ('/' separates, a leading dot is no extension)
fn ext(name: &str) -> &str {
    let base = name.trim_end_matches('/').rsplit('/').next().unwrap_or("");
    match base.rfind('.') {
        Some(0) | None => "",
        Some(i) => &base[i + 1..],
    }
}
fn ver(v: BISignVersion) -> usize {
    match v {
        BISignVersion::V2 => 2,
        BISignVersion::V3 => 3,
    }
}

/// The three padded hashes a signature over this archive must carry, independent of the code under test.
pub fn hashes(s: &Spec, packed: &[u8], v: BISignVersion, bytes: usize) -> [BigUint; 3] {
    let h1 = packed[packed.len() - 20..].to_vec();
    let mut fs: Vec<(String, &Vec<u8>)> = s.files.iter().map(|(n, c)| (back(n), c)).collect();
    fs.sort_by(|a, b| a.0.to_lowercase().cmp(&b.0.to_lowercase()).then(a.0.cmp(&b.0)));
    let mut names = Sha1::new();
    for (n, c) in &fs {
        if !c.is_empty() {
            names.update(n.to_lowercase().as_bytes());
        }
    }
    let names = names.finalize().to_vec();
    let mut pre = vec![];
    if s.with_props {
        if let Some((_, p)) = s.props.iter().find(|p| p.0 == "prefix") {
            pre.extend(p.as_bytes());
            if !p.ends_with('\\') {
                pre.push(b'\\');
            }
        }
    }
    let mut files = Sha1::new();
    let mut any = false;
    for (n, c) in &fs {
        let list = if ver(v) == 2 { V2 } else { V3 };
        if list.contains(&ext(n)) {
            any = true;
            files.update(c);
        }
    }
    if !any {
        files.update(if ver(v) == 2 { &b"nothing"[..] } else { &b"gnihton"[..] });
    }
    let files = files.finalize().to_vec();
    let h2 = Sha1::digest([&h1[..], &names[..], &pre[..]].concat()).to_vec();
    let h3 = Sha1::digest([&files[..], &names[..], &pre[..]].concat()).to_vec();
    let pad = |h: &[u8]| {
        let mut p = vec![0u8, 1];
        while p.len() < bytes - 36 {
            p.push(0xff);
        }
        p.extend([0x00, 0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14]);
        p.extend(h);
        assert_eq!(p.len(), bytes);
        BigUint::from_bytes_be(&p)
    };
    [pad(&h1), pad(&h2), pad(&h3)]
}

#[derive(Clone, Debug, PartialEq)]
pub struct SigF {
    authority: String,
    temp: u32,
    magic: Vec<u8>,
    length: u32,
    e: Vec<u8>,
    n: Vec<u8>,
    l: [u32; 3],
    s: [Vec<u8>; 3],
    v: u32,
}
impl SigF {
    fn parse(b: &[u8]) -> Result<SigF, String> {
        let z = b.iter().position(|x| *x == 0).ok_or("no NUL")?;
        let authority = String::from_utf8(b[..z].to_vec()).map_err(|e| e.to_string())?;
        let mut p = z + 1;
        let mut take = |k: usize| -> Result<Vec<u8>, String> {
            let r = b.get(p..p + k).ok_or("short signature file")?.to_vec();
            p += k;
            Ok(r)
        };
        let u = |v: Vec<u8>| u32::from_le_bytes([v[0], v[1], v[2], v[3]]);
        let temp = u(take(4)?);
        let magic = take(12)?;
        let length = u(take(4)?);
        let e = take(4)?;
        let k = (length / 8) as usize;
        let n = take(k)?;
        let l1 = u(take(4)?);
        let s1 = take(k)?;
        let v = u(take(4)?);
        let l2 = u(take(4)?);
        let s2 = take(k)?;
        let l3 = u(take(4)?);
        let s3 = take(k)?;
        if p != b.len() {
            return Err(format!("{} bytes too many in the signature file", b.len() - p));
        }
        Ok(SigF { authority, temp, magic, length, e, n, l: [l1, l2, l3], s: [s1, s2, s3], v })
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = self.authority.as_bytes().to_vec();
        o.push(0);
        o.extend(self.temp.to_le_bytes());
        o.extend(&self.magic);
        o.extend(self.length.to_le_bytes());
        o.extend(&self.e);
        o.extend(&self.n);
        o.extend(self.l[0].to_le_bytes());
        o.extend(&self.s[0]);
        o.extend(self.v.to_le_bytes());
        o.extend(self.l[1].to_le_bytes());
        o.extend(&self.s[1]);
        o.extend(self.l[2].to_le_bytes());
        o.extend(&self.s[2]);
        o
    }
    fn sign(&self) -> Result<BISign, String> {
        BISign::read(&mut &self.bytes()[..]).map_err(es)
    }
}
fn sigf(s: &BISign) -> Result<SigF, String> {
    let mut b = vec![];
    s.write(&mut b).map_err(es)?;
    SigF::parse(&b)
}
fn big(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
fn le(b: &BigUint, w: usize) -> Option<Vec<u8>> {
    let mut v = b.to_bytes_le();
    while v.last() == Some(&0) {
        v.pop();
    }
    if v.len() > w {
        return None;
    }
    v.resize(w, 0);
    Some(v)
}

pub struct Key {
    pri: BIPrivateKey,
    publ: BIPublicKey,
    bits: usize,
    raw: Vec<u8>,
}
fn key(bits: usize, authority: &str) -> Result<Key, String> {
    let pri = BIPrivateKey::generate(bits as u32, authority).map_err(es)?;
    let publ = pri.to_public_key();
    let mut raw = vec![];
    pri.write_danger(&mut raw).map_err(es)?;
    Ok(Key { pri, publ, bits, raw })
}
/// the numbers of a private key file: e n p q dp dq qinv d
fn pri_fields(raw: &[u8]) -> Result<(String, u32, u32, Vec<Vec<u8>>), String> {
    let z = raw.iter().position(|x| *x == 0).ok_or("no NUL")?;
    let a = String::from_utf8_lossy(&raw[..z]).to_string();
    let g = |i: usize| u32::from_le_bytes([raw[i], raw[i + 1], raw[i + 2], raw[i + 3]]);
    let temp = g(z + 1);
    let length = g(z + 17);
    let b = (length / 8) as usize;
    let h = (length / 16) as usize;
    let mut p = z + 21;
    let mut v = vec![];
    for w in [4, b, h, h, h, h, h, b] {
        v.push(raw.get(p..p + w).ok_or("short private key file")?.to_vec());
        p += w;
    }
    if p != raw.len() {
        return Err(format!("{} bytes too many in the private key file", raw.len() - p));
    }
    Ok((a, temp, length, v))
}

fn gen_archive(rng: &mut Rng) -> Spec {
    loop {
        let mut s = gen_spec(rng, false, false);
        if s.files.iter().all(|f| f.1.is_empty()) {
            continue;
        }
        if rng.b() && !s.props.iter().any(|p| p.0 == "prefix") {
            let v = *rng.pick(&["x\\y", "x\\y\\", "", "z\\ace\\addons\\main"]);
            s.props.push(("prefix".into(), v.into()));
        }
        return s;
    }
}

fn accepts(k: &BIPublicKey, arch: &[u8], s: &BISign) -> Result<bool, String> {
    Ok(k.verify(&mut open(arch)?, s).is_ok())
}

fn check_genuine(k: &Key, s: &Spec, v: BISignVersion) -> R {
    let (arch, _) = pack(s)?;
    let sig = k.pri.sign(&mut open(&arch)?, v).map_err(es)?;
    k.publ.verify(&mut open(&arch)?, &sig).map_err(|e| format!("genuine {v:?} signature rejected: {e}"))?;
    // through files
    let pri2 = BIPrivateKey::read(&mut &k.raw[..]).map_err(es)?;
    let mut praw = vec![];
    k.publ.write(&mut praw).map_err(es)?;
    let pub2 = BIPublicKey::read(&mut &praw[..]).map_err(es)?;
    let f = sigf(&sig)?;
    let sig2 = f.sign()?;
    pub2.verify(&mut open(&arch)?, &sig2).map_err(|e| format!("rejected after key and signature were written and read back: {e}"))?;
    let sig3 = pri2.sign(&mut open(&arch)?, v).map_err(es)?;
    eq!(sigf(&sig3)?, f, "signature by the private key read back");
    eq!(sig2.authority(), sig.authority(), "authority of the signature read back");
    ck!(sig2.modulus() == k.publ.modulus() && sig2.exponent() == k.publ.exponent() && sig2.signatures() == sig.signatures() && sig2.length() == sig.length(), "a number of the signature changed through its file");
    eq!(ver(sig2.version()), ver(v), "version of the signature read back");
    eq!(f.v as usize, ver(v), "version number in the file");
    // what was signed
    let want = hashes(s, &arch, v, k.bits / 8);
    let (_, _, _, pf) = pri_fields(&k.raw)?;
    let (n, e, d) = (big(&pf[1]), big(&pf[0]), big(&pf[7]));
    for i in 0..3 {
        let got = big(&f.s[i]).modpow(&e, &n);
        ck!(got == want[i], "signature {} is over the wrong value: {:x}, expected {:x}", i + 1, got, want[i]);
        ck!(want[i].modpow(&d, &n) == big(&f.s[i]), "signature {} is not the private power", i + 1);
    }
    let (a, b, c) = sig.signatures_modpow();
    ck!([a, b, c] == want, "signatures_modpow is not what was signed");
    Ok(())
}

/// every one of these must be rejected by k
fn forgeries(rng: &mut Rng, f: &SigF, other: &SigF, elsewhere: &SigF, want: &[BigUint; 3]) -> Vec<(String, SigF)> {
    let mut v: Vec<(String, SigF)> = vec![];
    let mut add = |n: &str, g: SigF| {
        if &g != f {
            v.push((n.to_string(), g));
        }
    };
    let k = f.n.len();
    // made with another key, carrying that key's parameters
    add("other key", other.clone());
    // made with another key, carrying this key's parameters
    add("other key's numbers under this key's parameters", SigF { s: other.s.clone(), ..f.clone() });
    add("this key's numbers under the other key's parameters", SigF { n: other.n.clone(), e: other.e.clone(), ..f.clone() });
    add("other modulus", SigF { n: other.n.clone(), ..f.clone() });
    // trivial exponents
    let one = SigF { e: vec![1, 0, 0, 0], s: [le(&want[0], k).unwrap(), le(&want[1], k).unwrap(), le(&want[2], k).unwrap()], ..f.clone() };
    add("exponent one", one.clone());
    add("padded hashes as signatures", SigF { e: f.e.clone(), ..one });
    for i in 0..3 {
        add("signature number replaced", SigF { s: { let mut s = f.s.clone(); s[i] = elsewhere.s[i].clone(); s }, ..f.clone() });
        add("signature number by another key", SigF { s: { let mut s = f.s.clone(); s[i] = other.s[i].clone(); s }, ..f.clone() });
        let j = (i + 1) % 3;
        add("signature numbers swapped", SigF { s: { let mut s = f.s.clone(); s.swap(i, j); s }, ..f.clone() });
        add("signature number copied", SigF { s: { let mut s = f.s.clone(); s[i] = s[j].clone(); s }, ..f.clone() });
        add("zero signature number", SigF { s: { let mut s = f.s.clone(); s[i] = vec![0; k]; s }, ..f.clone() });
        add("one", SigF { s: { let mut s = f.s.clone(); s[i] = le(&BigUint::from(1u32), k).unwrap(); s }, ..f.clone() });
        for d in [-1i32, 1] {
            let x = big(&f.s[i]);
            let n = big(&f.n);
            let x = if d < 0 { &n - &x } else { &x + &n };
            if let Some(b) = le(&x, k) {
                add("number plus or minus the modulus", SigF { s: { let mut s = f.s.clone(); s[i] = b; s }, ..f.clone() });
            }
        }
        let bit = rng.n(k * 8);
        add("bit flipped in a signature number", SigF { s: { let mut s = f.s.clone(); s[i][bit / 8] ^= 1 << (bit % 8); s }, ..f.clone() });
    }
    let bit = rng.n(k * 8);
    add("bit flipped in the modulus", SigF { n: { let mut s = f.n.clone(); s[bit / 8] ^= 1 << (bit % 8); s }, ..f.clone() });
    add("zero modulus", SigF { n: vec![0; k], ..f.clone() });
    let bit = rng.n(32);
    add("bit flipped in the exponent", SigF { e: { let mut s = f.e.clone(); s[bit / 8] ^= 1 << (bit % 8); s }, ..f.clone() });
    add("version exchanged", SigF { v: 5 - f.v, ..f.clone() });
    add("other version number", SigF { v: rng.u32x(), ..f.clone() });
    add("other authority", SigF { authority: format!("{}x", f.authority), ..f.clone() });
    add("authority in other case", SigF { authority: f.authority.to_uppercase(), ..f.clone() });
    add("authority shortened", SigF { authority: f.authority[..f.authority.len() - 1].to_string(), ..f.clone() });
    // everything shorter
    let nl = f.length - 8;
    add("declared shorter", SigF { length: nl, temp: nl / 8 + 20, ..f.clone() });
    v
}

fn alter(rng: &mut Rng, s: &Spec) -> (String, Spec) {
    let mut t = s.clone();
    let i = rng.n(t.files.len());
    let what = match rng.n(9) {
        0 => {
            if t.files[i].1.is_empty() {
                t.files[i].1.push(1);
            } else {
                let at = rng.n(t.files[i].1.len());
                t.files[i].1[at] ^= 1 << rng.n(8);
            }
            format!("content bit of {:?}", t.files[i].0)
        }
        1 => {
            t.files[i].1.push(rng.next() as u8);
            format!("byte appended to {:?}", t.files[i].0)
        }
        2 => {
            t.files[i].1.pop();
            format!("byte removed from {:?}", t.files[i].0)
        }
        3 => {
            t.files[i].0.push('q');
            format!("renamed to {:?}", t.files[i].0)
        }
        4 => {
            let f = t.files.remove(i);
            format!("{:?} removed", f.0)
        }
        5 => {
            t.files.push((format!("new{}.sqf", rng.n(1000)), rng.bytes(5)));
            "file added".into()
        }
        6 => {
            t.with_props = true;
            if let Some(p) = t.props.iter_mut().find(|p| p.0 == "prefix") {
                p.1.push('x');
            } else {
                t.props.push(("prefix".into(), "evil".into()));
            }
            "prefix changed".into()
        }
        7 => {
            let j = rng.n(t.files.len());
            let c = t.files[i].1.clone();
            t.files[i].1 = t.files[j].1.clone();
            t.files[j].1 = c;
            "contents exchanged".into()
        }
        _ => {
            t.with_props = true;
            t.props.push((format!("key{}", rng.n(100)), "v".into()));
            "property added".into()
        }
    };
    (what, t)
}

fn check_forged(rng: &mut Rng, ks: &[Key], s: &Spec, v: BISignVersion) -> R {
    let i = rng.n(ks.len());
    let k = &ks[i];
    let o = ks.iter().enumerate().find(|(j, x)| *j != i && x.bits == k.bits).ok_or("no second key")?.1;
    let (arch, _) = pack(s)?;
    let sig = k.pri.sign(&mut open(&arch)?, v).map_err(es)?;
    ck!(accepts(&k.publ, &arch, &sig)?, "genuine signature rejected");
    ck!(!accepts(&o.publ, &arch, &sig)?, "accepted by another key of the same authority");
    let f = sigf(&sig)?;
    let other = sigf(&o.pri.sign(&mut open(&arch)?, v).map_err(es)?)?;
    let (w, t) = alter(rng, s);
    let (arch2, _) = pack(&t)?;
    let esig;
    let elsewhere = if t.files.iter().any(|f| !f.1.is_empty()) {
        esig = k.pri.sign(&mut open(&arch2)?, v).map_err(es)?;
        sigf(&esig)?
    } else {
        f.clone()
    };
    let same = s.expected() == t.expected();
    if !same {
        let mut p2 = open(&arch2)?;
        ck!(k.publ.verify(&mut p2, &sig).is_err(), "accepted for an altered archive: {w}");
    }
    let want = hashes(s, &arch, v, k.bits / 8);
    for (w, g) in forgeries(rng, &f, &other, &elsewhere, &want) {
        // each number counts, not how it is held
        let Ok(gs) = g.sign() else { continue };
        if g.v != f.v && (g.v == 2 || g.v == 3) {
            let o = if g.v == 2 { BISignVersion::V2 } else { BISignVersion::V3 };
            if hashes(s, &arch, o, k.bits / 8) == want {
                continue; // both versions cover exactly the same bytes
            }
        }
        ck!(!accepts(&k.publ, &arch, &gs)?, "forged signature accepted: {w}");
    }
    Ok(())
}

pub fn s01(cx: &mut Cx) {
    let mut ks = vec![];
    cx.group("key generation");
    for bits in [512usize, 512, 512, 1024, 1024] {
        cx.case("keys", &format!("generate {bits}"), || {
            ks.push(key(bits, "author")?);
            Ok(())
        });
    }
    cx.group("altered archives and forged signatures");
    let mut n = 0;
    while cx.time(0.9) && ks.len() == 5 && n < 1_000_000 {
        n += 1;
        let s = gen_archive(&mut cx.rng);
        let v = if cx.rng.b() { BISignVersion::V2 } else { BISignVersion::V3 };
        let seed = cx.rng.next();
        cx.case("forge", &format!("{v:?} seed={seed} {}", s.show()), || check_forged(&mut Rng(seed), &ks, &s, v));
    }
    cx.group("unsorted archives");
    // entries out of order are not what a signature vouches for
    let k = match ks.first() {
        Some(k) => k,
        None => return,
    };
    for m in [0usize, 1] {
        cx.case("unsorted", &format!("variant {m}"), || {
            let s = Spec { files: vec![("b.sqf".into(), b"1".to_vec()), ("a.sqf".into(), b"22".to_vec())], props: vec![], with_props: m == 1 };
            let (arch, _) = pack(&s)?;
            let sig = k.pri.sign(&mut open(&arch)?, BISignVersion::V3).map_err(es)?;
            let pos = |b: &[u8], p: &[u8]| b.windows(p.len()).position(|w| w == p).unwrap();
            let (a, b) = (pos(&arch, b"a.sqf"), pos(&arch, b"b.sqf"));
            let mut x = arch.clone();
            x[a] = b'b';
            x[b] = b'a';
            ck!(k.publ.verify(&mut open(&x)?, &sig).is_err(), "accepted for an archive with renamed, unsorted entries");
            Ok(())
        });
    }
}

/// what is wrong with a private key (0), public key (1) or signature (2) file
fn ill(b: &[u8], w: usize) -> Option<&'static str> {
    let Some(z) = b.iter().position(|x| *x == 0) else { return Some("no end of its name") };
    let b = &b[z + 1..];
    let word = |at: usize| b.get(at..at + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]));
    let (Some(size), Some(bits)) = (word(0), word(16)) else { return Some("no header") };
    let (y, h) = ((bits / 8) as usize, (bits / 16) as usize);
    if u64::from(size) != if w == 0 { h as u64 * 9 + 20 } else { y as u64 + 20 } {
        return Some("a size that is not that of its numbers");
    }
    if b.len() < 24 + [2 * y + 5 * h, y, 4 * y + 16][w] {
        return Some("bytes missing");
    }
    if w == 2 && !matches!(word(28 + 2 * y), Some(2 | 3)) {
        return Some("an unknown version");
    }
    None
}
pub fn s02(cx: &mut Cx) {
    let mut ks = vec![];
    cx.group("key generation");
    for bits in [512usize, 1024, 2048] {
        cx.case("keys", &format!("generate {bits}"), || {
            ks.push(key(bits, *["me", "my_mod 1.2.3-\u{e9}", "a"].get(bits / 1024).unwrap_or(&"x"))?);
            Ok(())
        });
    }
    cx.group("keys written and read");
    let mut n = 0;
    let mut zero_found = 0;
    while cx.time(0.3) && n < 400 {
        n += 1;
        let bits = if n % 8 == 0 { 1024 } else { 512 };
        cx.case("keyfile", &format!("fresh key {n} of {bits} bits"), || {
            let k = key(bits, "k")?;
            let (a, temp, length, f) = pri_fields(&k.raw)?;
            eq!(a, "k".to_string(), "authority in the file");
            eq!(length as usize, bits, "length in the file");
            eq!(temp as usize, bits / 16 * 9 + 20, "announced size");
            let v: Vec<BigUint> = f.iter().map(|b| big(b)).collect();
            let one = BigUint::from(1u32);
            ck!(&v[2] * &v[3] == v[1], "n is not p*q in the file");
            ck!(v[4] == &v[7] % (&v[2] - &one) && v[5] == &v[7] % (&v[3] - &one), "dp/dq wrong in the file");
            ck!((&v[6] * &v[3]) % &v[2] == one, "qinv wrong in the file");
            ck!(BigUint::from(7u32).modpow(&v[0], &v[1]).modpow(&v[7], &v[1]) == BigUint::from(7u32), "e and d do not belong together");
            if f.iter().skip(1).any(|b| b.last() == Some(&0)) {
                zero_found += 1;
            }
            let k2 = BIPrivateKey::read(&mut &k.raw[..]).map_err(es)?;
            let mut raw2 = vec![];
            k2.write_danger(&mut raw2).map_err(es)?;
            ck!(raw2 == k.raw, "private key changed through its file");
            let p = k2.to_public_key();
            ck!(p.modulus() == &v[1] && p.exponent() == &v[0] && p.length() as usize == bits && p.authority() == "k", "public key does not belong to the private key");
            Ok(())
        });
    }
    cx.group("files with any numbers");
    // any field values, in particular with leading zero bytes
    while cx.time(0.45) && n < 20_000 {
        n += 1;
        let bits = *cx.rng.pick(&[512usize, 1024, 528, 2048, 16, 0]);
        let (b, h) = (bits / 8, bits / 16);
        let auth = (*cx.rng.pick(&["", "a", "some_author", "\u{416}\u{4e2d}"])).to_string();
        let mut num = |rng: &mut Rng, w: usize| {
            let mut v = rng.bytes(w);
            let z = match rng.n(4) {
                0 => 1,
                1 => rng.n(w + 1),
                2 => w,
                _ => 0,
            };
            for x in v.iter_mut().rev().take(z.min(w)) {
                *x = 0;
            }
            v
        };
        let mut pri = auth.as_bytes().to_vec();
        pri.push(0);
        pri.extend(((bits / 16 * 9 + 20) as u32).to_le_bytes());
        pri.extend(b"\x07\x02\x00\x00\x00\x24\x00\x00RSA2");
        pri.extend((bits as u32).to_le_bytes());
        for w in [4, b, h, h, h, h, h, b] {
            pri.extend(num(&mut cx.rng, w));
        }
        let mut pb = auth.as_bytes().to_vec();
        pb.push(0);
        pb.extend(((bits / 8 + 20) as u32).to_le_bytes());
        pb.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
        pb.extend((bits as u32).to_le_bytes());
        let e = num(&mut cx.rng, 4);
        let nn = num(&mut cx.rng, b);
        pb.extend(&e);
        pb.extend(&nn);
        let sf = SigF {
            authority: auth.clone(),
            temp: (bits / 8 + 20) as u32,
            magic: b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1".to_vec(),
            length: bits as u32,
            e: e.clone(),
            n: nn.clone(),
            l: [b as u32; 3],
            s: [num(&mut cx.rng, b), num(&mut cx.rng, b), num(&mut cx.rng, b)],
            v: 2 + cx.rng.n(2) as u32,
        };
        let tail = cx.rng.n(3);
        cx.case("fields", &format!("private {} public {} signature {}", hex(&pri), hex(&pb), hex(&sf.bytes())), || {
            let with_tail = |v: &[u8]| { let mut v = v.to_vec(); v.extend(vec![0xAA; tail]); v };
            let t = with_tail(&pri);
            let mut c = &t[..];
            let k = BIPrivateKey::read(&mut c).map_err(es)?;
            eq!(c.len(), tail, "bytes left after a private key");
            let mut o = vec![];
            k.write_danger(&mut o).map_err(es)?;
            ck!(o == pri, "private key file changed: {}", hex(&o));
            let t = with_tail(&pb);
            let mut c = &t[..];
            let k = BIPublicKey::read(&mut c).map_err(es)?;
            eq!(c.len(), tail, "bytes left after a public key");
            eq!(k.authority(), auth, "authority");
            eq!(k.length() as usize, bits, "length");
            ck!(k.exponent() == &big(&e) && k.modulus() == &big(&nn), "numbers of the public key: {:x} {:x}", k.exponent(), k.modulus());
            let mut o = vec![];
            k.write(&mut o).map_err(es)?;
            ck!(o == pb, "public key file changed: {}", hex(&o));
            let sb = sf.bytes();
            let t = with_tail(&sb);
            let mut c = &t[..];
            let g = BISign::read(&mut c).map_err(es)?;
            eq!(c.len(), tail, "bytes left after a signature");
            eq!(g.authority(), auth, "authority of the signature");
            ck!(g.exponent() == &big(&e) && g.modulus() == &big(&nn), "parameters of the signature");
            let (a, b, c3) = g.signatures();
            ck!(a == &big(&sf.s[0]) && b == &big(&sf.s[1]) && c3 == &big(&sf.s[2]), "numbers of the signature");
            eq!(ver(g.version()) as u32, sf.v, "version of the signature");
            let mut o = vec![];
            g.write(&mut o).map_err(es)?;
            ck!(o == sb, "signature file changed: {}", hex(&o));
            Ok(())
        });
    }
    cx.group("signed archives verify");
    while cx.time(0.8) && ks.len() == 3 {
        let s = gen_archive(&mut cx.rng);
        let v = if cx.rng.b() { BISignVersion::V2 } else { BISignVersion::V3 };
        let i = match cx.rng.n(12) { 0 => 2, 1 | 2 => 1, _ => 0 };
        cx.case("genuine", &format!("{v:?} {} bits {}", ks[i].bits, s.show()), || check_genuine(&ks[i], &s, v));
    }
    cx.group("which files are signed");
    for v in [BISignVersion::V2, BISignVersion::V3] {
        let list = if ver(v) == 2 { V2 } else { V3 };
        for e in V2.iter().chain(V3).chain(&["", "txt", "bin", "SQF", "hp", "hppx", "PAA"]) {
            for n in [format!("a.{e}"), format!("d\\b.{e}"), format!("x.sqf.{e}"), format!("{e}"), format!(".{e}")] {
                cx.case("hashed", &format!("{v:?} {n}"), || {
                    eq!(v.should_hash_file(&n), list.contains(&ext(&n)), "should_hash_file");
                    Ok(())
                });
            }
        }
    }
    cx.group("malformed files");
    let k = match ks.first() {
        Some(k) => k,
        None => return,
    };
    let s = Spec { files: vec![("a.sqf".into(), b"abc".to_vec())], props: vec![("prefix".into(), "x".into())], with_props: true };
    let Ok((arch, _)) = pack(&s) else { return };
    let Ok(mut p) = open(&arch) else { return };
    let Ok(sig) = k.pri.sign(&mut p, BISignVersion::V3) else { return };
    let mut sraw = vec![];
    let _ = sig.write(&mut sraw);
    let mut praw = vec![];
    let _ = k.publ.write(&mut praw);
    while cx.time(1.0) {
        let mut files = [k.raw.clone(), praw.clone(), sraw.clone()];
        let w = cx.rng.n(3);
        let b = &mut files[w];
        match cx.rng.n(5) {
            0 => b.truncate(cx.rng.n(b.len())),
            4 => {
                // the size announced, the width or the version
                let z = b.iter().position(|x| *x == 0).unwrap_or(0) + 1;
                let y = (u32::from_le_bytes([b[z + 16], b[z + 17], b[z + 18], b[z + 19]]) / 8) as usize;
                let at = if w == 2 && cx.rng.n(2) == 0 { 28 + 2 * y } else { *cx.rng.pick(&[0usize, 16]) };
                let x = b[z + at];
                b[z + at] = *cx.rng.pick(&[0u8, 1, 2, 3, 4, 5, x.wrapping_add(1), x.wrapping_add(8), x.wrapping_sub(16)]);
            }
            1 => {
                let at = cx.rng.n(b.len());
                b[at] = cx.rng.next() as u8;
            }
            2 => {
                // sizes
                let z = b.iter().position(|x| *x == 0).unwrap_or(0);
                let len = cx.rng.u32x() & 0x00ff_ffff;
                let l = if w == 0 { len / 16 * 9 + 20 } else { len / 8 + 20 };
                b[z + 1..z + 5].copy_from_slice(&l.to_le_bytes());
                b[z + 17..z + 21].copy_from_slice(&len.to_le_bytes());
            }
            _ => {
                for _ in 0..cx.rng.range(1, 4) {
                    let at = cx.rng.n(60.min(b.len()));
                    b[at] = *cx.rng.pick(&[0u8, 0xff, 1, 0x80]);
                }
            }
        }
        let files = files;
        cx.case("malformed", &format!("kind {w} {}", hex(&files[w])), || {
            let bad = ill(&files[w], w);
            if let Some(why) = bad {
                let read = match w {
                    0 => BIPrivateKey::read(&mut &files[0][..]).is_ok(),
                    1 => BIPublicKey::read(&mut &files[1][..]).is_ok(),
                    _ => BISign::read(&mut &files[2][..]).is_ok(),
                };
                ck!(!read, "a file with {why} was read");
            }
            if let Ok(k) = BIPrivateKey::read(&mut &files[0][..]) {
                let _ = k.to_public_key();
                if w != 0 || files[0] == sraw {
                    let _ = k.sign(&mut open(&arch)?, BISignVersion::V2);
                }
            }
            if let (Ok(p), Ok(s)) = (BIPublicKey::read(&mut &files[1][..]), BISign::read(&mut &files[2][..])) {
                let ok = p.verify(&mut open(&arch)?, &s).is_ok();
                if ok {
                    ck!(p.modulus() == k.publ.modulus() && s.signatures() == sig.signatures(), "altered file accepted");
                }
            }
            Ok(())
        });
    }
    for bits in 0..40u32 {
        let bits = bits * 16;
        cx.case("short keys", &format!("{bits} bits"), || {
            let b = (bits / 8) as usize;
            let mut pb = b"me\0".to_vec();
            pb.extend((bits / 8 + 20).to_le_bytes());
            pb.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
            pb.extend(bits.to_le_bytes());
            pb.extend([1, 0, 1, 0]);
            pb.extend(vec![0xff; b]);
            let mut sg = pb.clone();
            for i in 0..3 {
                sg.extend((bits / 8).to_le_bytes());
                sg.extend(vec![3; b]);
                if i == 0 {
                    sg.extend(3u32.to_le_bytes());
                }
            }
            let p = BIPublicKey::read(&mut &pb[..]).map_err(es)?;
            let s = BISign::read(&mut &sg[..]).map_err(es)?;
            ck!(p.verify(&mut open(&arch)?, &s).is_err(), "accepted");
            Ok(())
        });
    }
}
