use crate::c_common::Dribble;
use crate::*;
use hemtt_pbo::{BISignVersion, Header, Mime, ReadablePbo, WritablePbo};
use sha1::{Digest, Sha1};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug)]
pub struct Spec {
    /// names as given (slashes of either kind), contents
    pub files: Vec<(String, Vec<u8>)>,
    pub props: Vec<(String, String)>,
    pub with_props: bool,
}

pub fn back(s: &str) -> String {
    s.chars().map(|c| if c == '/' { '\\' } else { c }).collect()
}

impl Spec {
    pub fn show(&self) -> String {
        format!(
            "files={:?} props={:?} with_props={}",
            self.files.iter().map(|(n, c)| (n.clone(), if c.len() <= 24 { hex(c) } else { format!("{} bytes fnv {:x}", c.len(), fnv(c)) })).collect::<Vec<_>>(),
            self.props,
            self.with_props
        )
    }
    /// the archive this must become (independent of the code under test)
    pub fn expected(&self) -> Vec<u8> {
        let mut v = vec![];
        let hdr = |v: &mut Vec<u8>, name: &str, mime: u32, orig: u32, size: u32| {
            v.extend(name.as_bytes());
            v.push(0);
            for x in [mime, orig, 0, 0, size] {
                v.extend(x.to_le_bytes());
            }
        };
        if self.with_props {
            hdr(&mut v, "", 0x5665_7273, 0, 0);
            for (k, val) in self.props.iter().filter(|p| p.0 == "prefix").chain(self.props.iter().filter(|p| p.0 != "prefix")) {
                v.extend(k.as_bytes());
                v.push(0);
                v.extend(val.as_bytes());
                v.push(0);
            }
            v.push(0);
        }
        let mut fs: Vec<(String, &Vec<u8>)> = self.files.iter().map(|(n, c)| (back(n), c)).collect();
        fs.sort_by(|a, b| a.0.to_lowercase().cmp(&b.0.to_lowercase()).then(a.0.cmp(&b.0)));
        for (n, c) in &fs {
            hdr(&mut v, n, 0, c.len() as u32, c.len() as u32);
        }
        hdr(&mut v, "", 0, 0, 0);
        for (_, c) in &fs {
            v.extend(c.iter());
        }
        let s = Sha1::digest(&v);
        v.push(0);
        v.extend(s.iter());
        v
    }
}

const CH: &[char] = &['a', 'b', 'c', 'd', 'A', 'B', 'Z', 'z', '_', '.', '-', ' ', '0', '9', '\u{e9}', '\u{416}', '\u{436}', '\u{4e2d}', '[', '~', '!', '$'];

pub fn gen_name(rng: &mut Rng) -> String {
    let n = rng.range(1, 3);
    (0..n)
        .map(|i| {
            let l = rng.range(1, 6);
            let mut s: String = (0..l).map(|_| if rng.n(3) > 0 { CH[rng.n(8)] } else { *rng.pick(CH) }).collect();
            if i + 1 == n && rng.b() {
                s.push_str(*rng.pick(&[".sqf", ".paa", ".P3D", ".hpp", ".bin", ".ogg", ".jpg", ".h", ".cfg"]));
            }
            s
        })
        .collect::<Vec<_>>()
        .join(*rng.pick(&["\\", "/", "\\"]))
}

pub fn gen_spec(rng: &mut Rng, big: bool, caseclash: bool) -> Spec {
    let nf = match rng.n(10) {
        0 => 0,
        1 => 1,
        2 => rng.range(10, 40),
        _ => rng.range(1, 7),
    };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..nf {
        let mut n = gen_name(rng);
        if rng.one_in(6) {
            if let Some((o, _)) = files.last() {
                // neighbours in sort order
                n = format!("{o}{}", rng.pick(&["a", "_", "\\x", ".", "Z"]));
            }
        }
        if caseclash && rng.one_in(2) {
            if let Some((o, _)) = files.last() {
                n = if rng.b() { o.to_ascii_uppercase() } else { o.to_ascii_lowercase() };
            }
        }
        let key = |s: &str| if caseclash { back(s) } else { back(s).to_lowercase() };
        if files.iter().any(|f| key(&f.0) == key(&n)) {
            continue;
        }
        let len = match rng.n(8) {
            0 => 0,
            1 => rng.range(1, 3),
            2 => rng.range(200, 9000),
            _ => rng.n(60),
        };
        let c = rng.bytes(len);
        files.push((n, c));
    }
    if big && !files.is_empty() {
        let k = rng.range(1, 2);
        for _ in 0..k {
            let i = rng.n(files.len());
            let len = *rng.pick(&[999_999usize, 1_000_000, 1_000_001, 1_000_002, 1_300_000]);
            files[i].1 = rng.bytes(len / 8 + 1).iter().flat_map(|b| [*b, 1, 2, b ^ 3, 4, 5, 6, 7]).take(len).collect();
        }
    }
    let np = rng.n(5);
    let mut props: Vec<(String, String)> = vec![];
    for _ in 0..np {
        let k = (*rng.pick(&["prefix", "version", "author", "hemtt", "Prefix", "\u{e9}tat", "a b"])).to_string();
        if props.iter().any(|p| p.0 == k) {
            continue;
        }
        let v = (*rng.pick(&["", "z\\ace\\addons\\x", "1.2.3.4-abcdef", "\u{4e2d}", "x y", "prefix"])).to_string();
        props.push((k, v));
    }
    Spec { files, props, with_props: !rng.one_in(4) }
}

pub fn build(s: &Spec) -> Result<WritablePbo<Cursor<Vec<u8>>>, String> {
    let mut w = WritablePbo::new();
    for (k, v) in &s.props {
        // backslashes at the ends of a value are dropped
        let (a, b) = ((k.len() + v.len()) % 3, (k.len() + 2 * v.len()) % 3);
        w.add_property(k, format!("{}{v}{}", "\\".repeat(a), "\\".repeat(b)));
    }
    for (n, c) in &s.files {
        // an input that is not at its start must not matter
        let mut cur = Cursor::new(c.clone());
        cur.set_position((c.len() / 2) as u64);
        w.add_file(n.clone(), cur).map_err(|e| format!("add_file: {e}"))?;
    }
    Ok(w)
}

pub fn pack(s: &Spec) -> Result<(Vec<u8>, [u8; 20]), String> {
    let mut w = build(s)?;
    let mut out = vec![];
    let c = w.write(&mut out, s.with_props).map_err(|e| format!("write: {e}"))?;
    Ok((out, *c.as_bytes()))
}

fn e2s(e: hemtt_pbo::Error) -> String {
    format!("error: {e}")
}

fn mixcase(rng: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let c = match rng.n(3) {
            0 => c.to_ascii_uppercase(),
            1 => c.to_ascii_lowercase(),
            _ => c,
        };
        o.push(match c {
            '\\' if rng.b() => '/',
            '\u{416}' | '\u{436}' => if rng.b() { '\u{416}' } else { '\u{436}' },
            '\u{e9}' => if rng.b() { '\u{c9}' } else { '\u{e9}' },
            c => c,
        });
    }
    o
}

fn find(hay: &[u8], at: usize, n: usize) -> Option<&[u8]> {
    hay.get(at..at + n)
}

fn check_readback(s: &Spec, out: &[u8], rng: &mut Rng) -> R {
    let mut r = ReadablePbo::from(Cursor::new(out.to_vec())).map_err(e2s)?;
    let mut want: Vec<(String, Vec<u8>)> = s.files.iter().map(|(n, c)| (back(n), c.clone())).collect();
    want.sort();
    let mut got: Vec<String> = r.files().iter().map(|h| h.filename().to_string()).collect();
    got.sort();
    eq!(got, want.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), "entry names");
    let wp: Vec<(String, String)> = if s.with_props { s.props.clone() } else { vec![] };
    eq!(r.properties().len(), wp.len(), "number of properties");
    for (k, v) in &wp {
        eq!(r.properties().get(k), Some(v), "property {k:?}");
    }
    for h in r.files() {
        let c = &want.iter().find(|w| w.0 == h.filename()).ok_or("missing")?.1;
        eq!(h.size() as usize, c.len(), "size of {:?}", h.filename());
        eq!(h.original() as usize, c.len(), "original size of {:?}", h.filename());
        eq!(h.timestamp(), 0, "timestamp");
        eq!(h.reserved(), 0, "reserved");
        eq!(h.mime(), &Mime::Blank, "mime");
    }
    for (n, c) in &s.files {
        for k in 0..4 {
            let q = match k {
                0 => back(n),
                1 => back(n).replace('\\', "/"),
                _ => mixcase(rng, &back(n)),
            };
            let mut buf = vec![];
            let mut f = r.file(&q).map_err(e2s)?.ok_or_else(|| format!("file {n:?} not found as {q:?}"))?;
            f.read_to_end(&mut buf).map_err(|e| e.to_string())?;
            ck!(&buf == c, "contents of {n:?} asked for as {q:?}: got {} want {}", hex(&buf), hex(c));
            let off = r.file_offset(&q).map_err(e2s)?.ok_or_else(|| format!("no offset of {n:?} as {q:?}"))?;
            ck!(find(out, off as usize, c.len()) == Some(&c[..]), "offset {off} reported for {n:?} is not where its {} bytes are", c.len());
            if k < 2 {
                eq!(r.header(&q).map(|h| h.filename().to_string()), Some(back(n)), "header of {q:?}");
            }
        }
    }
    let q = "no such file.xyz";
    ck!(r.file(q).map_err(e2s)?.is_none(), "a file that is not there was found");
    ck!(r.file_offset(q).map_err(e2s)?.is_none(), "an offset of a file that is not there was reported");
    // position the code claims, against an independent walk over the archive
    let exp = s.expected();
    for (n, c) in &s.files {
        let mut fs: Vec<(String, usize)> = s.files.iter().map(|(n, c)| (back(n), c.len())).collect();
        fs.sort_by(|a, b| a.0.to_lowercase().cmp(&b.0.to_lowercase()).then(a.0.cmp(&b.0)));
        let total: usize = fs.iter().map(|f| f.1).sum();
        let mut o = exp.len() - 21 - total;
        for f in &fs {
            if f.0 == back(n) {
                break;
            }
            o += f.1;
        }
        eq!(r.file_offset(n).map_err(e2s)?, Some(o as u64), "offset of {n:?} ({} bytes)", c.len());
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct RawHeader {
    name: Vec<u8>,
    f: [u32; 5],
}
fn raw(hs: &[RawHeader], props: &[(&str, &str)], vers: bool, body: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    if vers {
        v.push(0);
        for x in [0x5665_7273u32, 0, 0, 0, 0] {
            v.extend(x.to_le_bytes());
        }
        for (k, x) in props {
            v.extend(k.as_bytes());
            v.push(0);
            v.extend(x.as_bytes());
            v.push(0);
        }
        v.push(0);
    }
    for h in hs {
        v.extend(&h.name);
        v.push(0);
        for x in h.f {
            v.extend(x.to_le_bytes());
        }
    }
    v.extend([0u8; 21]);
    v.extend(body);
    let s = Sha1::digest(&v);
    v.push(0);
    v.extend(s.iter());
    v
}

/// pretends to be a file of a given size
struct Huge(u64, u64);
impl Read for Huge {
    fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
}
impl Seek for Huge {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.1 = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::End(x) => (self.0 as i64 + x) as u64,
            SeekFrom::Current(x) => (self.1 as i64 + x) as u64,
        };
        Ok(self.1)
    }
}

pub fn b01(cx: &mut Cx) {
    cx.group("packed archives read back");
    for i in 0..4000 {
        let s = gen_spec(&mut cx.rng, i % 400 == 7, false);
        let mut r2 = Rng(cx.rng.next());
        cx.case("readback", &s.show(), || {
            let (out, _) = pack(&s)?;
            check_readback(&s, &out, &mut r2)
        });
        if !cx.time(0.7) {
            break;
        }
    }
    cx.group("writable archive as a container");
    for _ in 0..1500 {
        let s = gen_spec(&mut cx.rng, false, false);
        let extra = cx.rng.bytes(9);
        cx.case("container", &s.show(), || {
            let mut w = build(&s)?;
            eq!(w.files().len(), s.files.len(), "number of files");
            for (n, c) in &s.files {
                for q in [back(n), back(n).replace('\\', "/")] {
                    let f = w.file(&q).map_err(e2s)?.ok_or_else(|| format!("{q:?} not found"))?;
                    let mut b = vec![];
                    f.read_to_end(&mut b).map_err(|e| e.to_string())?;
                    ck!(&b == c, "contents of {q:?} before packing");
                }
            }
            for (k, v) in &s.props {
                eq!(w.property(k), Some(&v.trim_matches('\\').to_string()), "property {k}");
            }
            // a file added twice: the later one counts
            if let Some((n, _)) = s.files.first() {
                w.add_file(n.clone(), Cursor::new(extra.clone())).map_err(e2s)?;
                let mut s2 = s.clone();
                s2.files[0].1 = extra.clone();
                let mut out = vec![];
                w.write(&mut out, s.with_props).map_err(e2s)?;
                ck!(out == s2.expected(), "a file added again under the same name did not replace the first one");
            }
            Ok(())
        });
    }
    cx.group("header fields");
    for _ in 0..4000 {
        let n = cx.rng.range(1, 4);
        let mut hs = vec![];
        let mut body = vec![];
        for i in 0..n {
            let size = cx.rng.n(20) as u32;
            let b = cx.rng.bytes(size as usize);
            body.extend(b);
            let mime = *cx.rng.pick(&[0u32, 0, 0x4370_7273, 0x456e_6372]);
            let nm = format!("{i}{}", back(&gen_name(&mut cx.rng)));
            hs.push(RawHeader { name: nm.into_bytes(), f: [mime, cx.rng.u32x(), cx.rng.u32x(), cx.rng.u32x(), size] });
        }
        let bad = if cx.rng.one_in(4) {
            let v = match cx.rng.n(3) {
                0 => [0x5665_7273u32, 0x4370_7273, 0x456e_6372][cx.rng.n(3)] ^ (1 << cx.rng.n(32)),
                1 => [0x5665_7273u32, 0x4370_7273, 0x456e_6372][cx.rng.n(3)].swap_bytes(),
                _ => cx.rng.u32x(),
            };
            if [0, 0x5665_7273, 0x4370_7273, 0x456e_6372].contains(&v) { None } else { Some(v) }
        } else {
            None
        };
        if let Some(v) = bad {
            let k = cx.rng.n(n);
            hs[k].f[0] = v;
        }
        let vers = cx.rng.b();
        cx.case("header", &format!("{hs:x?} vers={vers}"), || {
            let a = raw(&hs, &[("prefix", "x\\y")], vers, &body);
            let r = ReadablePbo::from(Cursor::new(a));
            if let Some(v) = bad {
                return match r {
                    Err(hemtt_pbo::Error::UnsupportedMime(m)) if m == v => Ok(()),
                    Err(e) => Err(format!("unknown type {v:#x}: error {e}")),
                    Ok(_) => Err(format!("an entry of unknown type {v:#x} was accepted")),
                };
            }
            let mut r = r.map_err(e2s)?;
            let fs = r.files();
            eq!(fs.len(), hs.len(), "entries");
            let mut at = 0usize;
            for (h, w) in fs.iter().zip(&hs) {
                eq!(h.filename().as_bytes(), &w.name[..], "name");
                let m = match h.mime() {
                    Mime::Vers => 0x5665_7273u32,
                    Mime::Cprs => 0x4370_7273,
                    Mime::Enco => 0x456e_6372,
                    Mime::Blank => 0,
                };
                eq!([m, h.original(), h.reserved(), h.timestamp(), h.size()], w.f, "fields of an entry");
                eq!(h.mime().as_u32(), m, "type as number");
                let mut b = vec![];
                r.file(h.filename()).map_err(e2s)?.ok_or("not found")?.read_to_end(&mut b).map_err(|e| e.to_string())?;
                ck!(b == body[at..at + h.size() as usize], "contents");
                at += h.size() as usize;
            }
            // and packed again with the same headers
            let mut w = WritablePbo::new();
            let mut at = 0usize;
            for h in &fs {
                let c = body[at..at + h.size() as usize].to_vec();
                at += h.size() as usize;
                w.add_file_with_header(h.clone(), Cursor::new(c)).map_err(e2s)?;
            }
            let mut out = vec![];
            w.write(&mut out, true).map_err(e2s)?;
            let r2 = ReadablePbo::from(Cursor::new(out)).map_err(e2s)?;
            for h in &fs {
                let g = r2.header(h.filename()).ok_or("header lost on repacking")?;
                eq!(
                    (g.mime(), g.original(), g.reserved(), g.timestamp(), g.size()),
                    (h.mime(), h.original(), h.reserved(), h.timestamp(), h.size()),
                    "fields of a repacked entry"
                );
            }
            Ok(())
        });
    }
    for x in [0u32, 1, 0x5665_7273, 0x4370_7273, 0x456e_6372] {
        cx.case("mime", &format!("{x:#x}"), || {
            eq!(Mime::from_u32(x).map(|m| m.as_u32()), if x == 1 { None } else { Some(x) }, "type number");
            Ok(())
        });
    }
    cx.group("sizes near the format's limit");
    for sz in [0u64, 1, u64::from(u32::MAX) - 1, u64::from(u32::MAX), u64::from(u32::MAX) + 1, u64::from(u32::MAX) + 6, 1 << 40] {
        cx.case("huge", &format!("a file of {sz} bytes"), || {
            let mut w = WritablePbo::new();
            let r = w.add_file("x", Huge(sz, 0));
            if sz > u64::from(u32::MAX) {
                ck!(r.is_err(), "a file of {sz} bytes, which an entry cannot hold, was accepted");
            } else {
                ck!(r.is_ok(), "a file of {sz} bytes was refused");
                eq!(u64::from(w.files()[0].size()), sz, "size in the header");
            }
            Ok(())
        });
    }
}

pub fn b02(cx: &mut Cx) {
    cx.group("reproducible packing and checksum");
    for i in 0..2500 {
        let clash = i % 5 == 4;
        let s = gen_spec(&mut cx.rng, i % 150 == 7, clash);
        let mut r2 = Rng(cx.rng.next());
        cx.case(if clash { "case-clash" } else { "pack" }, &s.show(), || {
            let (out, sum) = pack(&s)?;
            let exp = s.expected();
            ck!(out.len() >= 21, "no room for a checksum");
            let body = &out[..out.len() - 21];
            eq!(out[body.len()], 0, "byte before the checksum");
            let want: [u8; 20] = Sha1::digest(body).into();
            eq!(hex(&out[body.len() + 1..]), hex(&want), "checksum at the end of the archive");
            eq!(hex(&sum), hex(&want), "checksum returned by packing");
            ck!(out == exp, "archive bytes differ from the layout its files and properties require: got {} want {}", hex(&out), hex(&exp));
            // other insertion orders, other hash tables, packing twice
            for k in 0..4 {
                let mut t = s.clone();
                r2.shuffle(&mut t.files);
                let mut w = build(&t)?;
                let mut o2 = vec![];
                w.write(&mut o2, s.with_props).map_err(e2s)?;
                ck!(o2 == out, "adding the files in the order {:?} gives other bytes", t.files.iter().map(|f| &f.0).collect::<Vec<_>>());
                if k == 0 {
                    let mut o3 = vec![];
                    w.write(&mut o3, s.with_props).map_err(e2s)?;
                    ck!(o3 == out, "packing a second time gives other bytes");
                }
                let names: Vec<String> = w.files_sorted().iter().map(|h| h.filename().to_lowercase()).collect();
                ck!(names.windows(2).all(|w| w[0] <= w[1]), "files_sorted is not sorted: {names:?}");
            }
            let mut r = ReadablePbo::from(Cursor::new(out.clone())).map_err(e2s)?;
            eq!(hex(r.checksum().as_bytes()), hex(&want), "stored checksum read back");
            let names: Vec<String> = r.files().iter().map(|h| h.filename().to_lowercase()).collect();
            ck!(names.windows(2).all(|w| w[0] <= w[1]), "entries are not in case-insensitive order: {names:?}");
            ck!(r.is_sorted().is_ok(), "is_sorted rejects a packed archive");
            if !clash {
                eq!(hex(r.gen_checksum().map_err(e2s)?.as_bytes()), hex(&want), "recomputed checksum");
                eq!(hex(r.gen_checksum().map_err(e2s)?.as_bytes()), hex(&want), "checksum recomputed again");
            }
            Ok(())
        });
        if !cx.time(0.9) {
            break;
        }
    }
    cx.group("unsorted archives are recognised");
    for _ in 0..600 {
        let n = cx.rng.range(2, 6);
        let hs: Vec<RawHeader> = (0..n).map(|_| RawHeader { name: back(&gen_name(&mut cx.rng)).into_bytes(), f: [0; 5] }).collect();
        cx.case("unsorted", &format!("{:?}", hs.iter().map(|h| String::from_utf8_lossy(&h.name).to_string()).collect::<Vec<_>>()), || {
            let r = ReadablePbo::from(Cursor::new(raw(&hs, &[], true, &[]))).map_err(e2s)?;
            let l: Vec<String> = hs.iter().map(|h| String::from_utf8_lossy(&h.name).to_lowercase()).collect();
            let sorted = l.windows(2).all(|w| w[0] <= w[1]);
            eq!(r.is_sorted().is_ok(), sorted, "is_sorted");
            Ok(())
        });
    }
}

/// Seek+Read device that splits its reads
struct Dev {
    c: Cursor<Vec<u8>>,
    rng: Rng,
    one: bool,
}
impl Read for Dev {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = b.len();
        if n > 1 {
            n = if self.one { 1 } else { self.rng.range(1, n) };
        }
        if self.rng.one_in(9) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        self.c.read(&mut b[..n])
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

pub fn b03(cx: &mut Cx) {
    cx.group("entries read with arbitrary buffers from arbitrary devices");
    for i in 0..2500 {
        let s = gen_spec(&mut cx.rng, i % 500 == 9, false);
        let (a, b) = (cx.rng.next(), cx.rng.next());
        cx.case("entry", &format!("{} buffers from {a:x}", s.show()), || {
            let out = s.expected();
            let one = b % 5 == 0 && out.len() < 50_000;
            let mut r = ReadablePbo::from(Dev { c: Cursor::new(out), rng: Rng(b), one }).map_err(e2s)?;
            let mut rng = Rng(a);
            for (n, c) in &s.files {
                let mut f = r.file(n).map_err(e2s)?.ok_or("not found")?;
                let mut got = vec![];
                let big = c.len() > 100_000;
                loop {
                    let bl = match rng.n(5) {
                        0 if !big => 0,
                        1 => c.len().saturating_sub(got.len()),
                        2 => c.len() + 50,
                        3 if !big => rng.range(1, 4),
                        _ => rng.range(1, c.len() + 2),
                    };
                    let mut buf = vec![0xAA; bl];
                    match f.read(&mut buf) {
                        Ok(k) => {
                            ck!(k <= bl, "read reports {k} bytes into a buffer of {bl}");
                            got.extend(&buf[..k]);
                            ck!(got.len() <= c.len(), "entry {n:?} of {} bytes delivered {} bytes", c.len(), got.len());
                            if k == 0 && bl > 0 {
                                break;
                            }
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(format!("error {e}")),
                    }
                }
                ck!(&got == c, "entry {n:?}: delivered {} instead of {}", hex(&got), hex(c));
                // stays at its end
                for bl in [1usize, 100] {
                    let mut buf = vec![0; bl];
                    match f.read(&mut buf) {
                        Ok(0) => {}
                        Ok(k) => return Err(format!("entry {n:?} delivers {k} more bytes after its end")),
                        Err(_) => {}
                    }
                }
                // and as a whole, again
                let mut f = r.file(n).map_err(e2s)?.ok_or("not found")?;
                let mut all = vec![];
                f.read_to_end(&mut all).map_err(|e| e.to_string())?;
                ck!(&all == c, "entry {n:?} read to its end: {} instead of {}", hex(&all), hex(c));
                let mut f = r.file(n).map_err(e2s)?.ok_or("not found")?;
                let mut all = vec![0; c.len()];
                f.read_exact(&mut all).map_err(|e| e.to_string())?;
                ck!(&all == c, "entry {n:?} read exactly");
                ck!(f.read_exact(&mut [0]).is_err(), "a byte beyond the end of {n:?} could be read");
            }
            Ok(())
        });
        if !cx.time(0.6) {
            break;
        }
    }
    cx.group("very large buffers");
    for (n, bl) in [(10usize, 1usize << 32), (300, (1 << 32) + 5), (7, (1usize << 32) - 1)] {
        cx.case("huge-buffer", &format!("an entry of {n} bytes read with a buffer of {bl} bytes"), || {
            let s = Spec { files: vec![("a".into(), vec![7; n]), ("b".into(), vec![8; 400])], props: vec![], with_props: true };
            let mut r = ReadablePbo::from(Cursor::new(s.expected())).map_err(e2s)?;
            let mut f = r.file("a").map_err(e2s)?.ok_or("not found")?;
            let mut buf = vec![0u8; bl];
            let mut got = 0;
            loop {
                let k = f.read(&mut buf).map_err(|e| e.to_string())?;
                ck!(buf[..k].iter().all(|x| *x == 7), "foreign bytes delivered");
                got += k;
                if k == 0 {
                    break;
                }
            }
            eq!(got, n, "bytes delivered");
            Ok(())
        });
    }
    cx.group("arbitrary and corrupted bytes as an archive");
    for i in 0..30000 {
        let mut a = match cx.rng.n(8) {
            0 => {
                let n = cx.rng.n(80);
                cx.rng.bytes(n)
            }
            1 => {
                let n = cx.rng.range(1, 3);
                let hs: Vec<RawHeader> = (0..n)
                    .map(|_| {
                        let l = cx.rng.n(6);
                        let mut name: Vec<u8> = if cx.rng.b() { cx.rng.bytes(l) } else { gen_name(&mut cx.rng).into_bytes() };
                        name.retain(|x| *x != 0);
                        RawHeader { name, f: [*cx.rng.pick(&[0u32, 0x5665_7273, 0x4370_7273, 0x456e_6372]), cx.rng.u32x(), cx.rng.u32x(), cx.rng.u32x(), cx.rng.u32x()] }
                    })
                    .collect();
                let bl = cx.rng.n(50);
                let body = cx.rng.bytes(bl);
                let v = cx.rng.b();
                raw(&hs, &[("k", "v")], v, &body)
            }
            2 => {
                // well-formed, names with forward slashes or equal names
                let n = cx.rng.range(1, 4);
                let mut body = vec![];
                let hs: Vec<RawHeader> = (0..n)
                    .map(|_| {
                        let name = (*cx.rng.pick(&["a/b.sqf", "a\\b.sqf", "A/B.sqf", "x/y/z.paa", "/", "q"])).as_bytes().to_vec();
                        let s = cx.rng.n(5);
                        body.extend(cx.rng.bytes(s));
                        RawHeader { name, f: [0, 0, 0, 0, s as u32] }
                    })
                    .collect();
                raw(&hs, &[], true, &body)
            }
            _ => gen_spec(&mut cx.rng, false, i % 2 == 0).expected(),
        };
        match cx.rng.n(5) {
            0 => {
                let n = cx.rng.n(a.len() + 1);
                a.truncate(n);
            }
            1 | 2 => {
                for _ in 0..cx.rng.range(1, 6) {
                    if !a.is_empty() {
                        let i = cx.rng.n(a.len());
                        a[i] = *cx.rng.pick(&[0, 1, 0x7f, 0x80, 0xff, b'a', b'/', b'\\']);
                    }
                }
            }
            3 => {
                let n = cx.rng.n(5);
                let x = cx.rng.bytes(n);
                a.extend(x);
            }
            _ => {}
        }
        cx.case("arbitrary-archive", &hex(&a), || {
            let Ok(mut r) = ReadablePbo::from(Cursor::new(a.clone())) else { return Ok(()) };
            let _ = r.is_sorted();
            let _ = (r.properties().len(), r.checksum().hex());
            for h in r.files() {
                let _ = r.header(h.filename());
                let _ = r.file_offset(h.filename());
                if let Ok(Some(mut f)) = r.file(h.filename()) {
                    let mut v = vec![];
                    let _ = f.read_to_end(&mut v);
                    ck!(v.len() <= a.len(), "more bytes than the archive has");
                }
                if let Ok(Some(off)) = r.file_offset(h.filename()) {
                    ck!(std::str::from_utf8(&a).is_err() || off as usize <= a.len(), "offset outside the archive");
                }
            }
            let _ = r.gen_checksum();
            let _ = r.hash_filenames();
            let _ = r.hash_files(BISignVersion::V2);
            let _ = r.hash_files(BISignVersion::V3);
            Ok(())
        });
        if !cx.time(0.95) {
            break;
        }
    }
}
