//! M01: P3D models read and written by the real code, against a codec written from the format.
use crate::*;
use hemtt_p3d::{Face, Point, Vertex, LOD, P3D};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug, PartialEq, Default)]
struct MFace {
    verts: Vec<[u32; 4]>,
    flags: u32,
    texture: String,
    material: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct MLod {
    major: u32,
    minor: u32,
    res: u32,
    points: Vec<[u32; 4]>,
    normals: Vec<[u32; 3]>,
    faces: Vec<MFace>,
    taggs: Vec<(String, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct M {
    version: u32,
    lods: Vec<MLod>,
}

fn enc(m: &M) -> Vec<u8> {
    let mut o = b"MLOD".to_vec();
    let u = |o: &mut Vec<u8>, x: u32| o.extend_from_slice(&x.to_le_bytes());
    let s = |o: &mut Vec<u8>, x: &str| {
        o.extend_from_slice(x.as_bytes());
        o.push(0);
    };
    u(&mut o, m.version);
    u(&mut o, m.lods.len() as u32);
    for l in &m.lods {
        o.extend_from_slice(b"P3DM");
        for x in [l.major, l.minor, l.points.len() as u32, l.normals.len() as u32, l.faces.len() as u32, 0] {
            u(&mut o, x);
        }
        l.points.iter().flatten().for_each(|x| u(&mut o, *x));
        l.normals.iter().flatten().for_each(|x| u(&mut o, *x));
        for f in &l.faces {
            u(&mut o, f.verts.len() as u32);
            f.verts.iter().flatten().for_each(|x| u(&mut o, *x));
            if f.verts.len() == 3 {
                o.extend_from_slice(&[0; 16]);
            }
            u(&mut o, f.flags);
            s(&mut o, &f.texture);
            s(&mut o, &f.material);
        }
        o.extend_from_slice(b"TAGG");
        for (n, d) in &l.taggs {
            o.push(1);
            s(&mut o, n);
            u(&mut o, d.len() as u32);
            o.extend_from_slice(d);
        }
        o.push(1);
        s(&mut o, "#EndOfFile#");
        u(&mut o, 0);
        u(&mut o, l.res);
    }
    o
}

struct D<'a>(&'a [u8]);
impl D<'_> {
    fn n(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.0.len() < n {
            return None;
        }
        let v = self.0[..n].to_vec();
        self.0 = &self.0[n..];
        Some(v)
    }
    fn u(&mut self) -> Option<u32> {
        self.n(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn over(&mut self, n: usize) {
        self.0 = &self.0[n.min(self.0.len())..];
    }
    fn s(&mut self) -> String {
        let e = self.0.iter().position(|b| *b == 0).unwrap_or(self.0.len());
        let t = String::from_utf8(self.0[..e].to_vec()).unwrap_or_default();
        self.over(e + 1);
        t
    }
}
/// what a reader of the format makes of any bytes
fn dec(b: &[u8]) -> Option<M> {
    let mut d = D(b);
    if d.n(4)? != b"MLOD" {
        return None;
    }
    let mut m = M { version: d.u()?, lods: vec![] };
    let n = d.u()?;
    for _ in 0..n {
        if d.n(4)? != b"P3DM" {
            return None;
        }
        let mut l = MLod { major: d.u()?, minor: d.u()?, ..MLod::default() };
        let (np, nn, nf) = (d.u()?, d.u()?, d.u()?);
        d.over(4);
        for _ in 0..np {
            l.points.push([d.u()?, d.u()?, d.u()?, d.u()?]);
        }
        for _ in 0..nn {
            l.normals.push([d.u()?, d.u()?, d.u()?]);
        }
        for _ in 0..nf {
            let k = d.u()?;
            if k != 3 && k != 4 {
                return None;
            }
            let mut f = MFace::default();
            for _ in 0..k {
                f.verts.push([d.u()?, d.u()?, d.u()?, d.u()?]);
            }
            if k == 3 {
                d.n(16)?;
            }
            f.flags = d.u()?;
            f.texture = d.s();
            f.material = d.s();
            l.faces.push(f);
        }
        if d.n(4)? != b"TAGG" {
            return None;
        }
        loop {
            d.over(1);
            let name = d.s();
            let size = d.u()?;
            let data = d.n(size as usize)?;
            if name == "#EndOfFile#" {
                break;
            }
            l.taggs.push((name, data));
        }
        l.res = d.u()?;
        m.lods.push(l);
    }
    Some(m)
}

fn f(x: u32) -> f32 {
    f32::from_bits(x)
}
fn real(m: &M) -> P3D {
    P3D {
        version: m.version,
        lods: m
            .lods
            .iter()
            .map(|l| LOD {
                version_major: l.major,
                version_minor: l.minor,
                resolution: f(l.res),
                points: l.points.iter().map(|p| Point { coords: (f(p[0]), f(p[1]), f(p[2])), flags: p[3] }).collect(),
                face_normals: l.normals.iter().map(|p| (f(p[0]), f(p[1]), f(p[2]))).collect(),
                faces: l
                    .faces
                    .iter()
                    .map(|x| Face {
                        vertices: x.verts.iter().map(|v| Vertex { point_index: v[0], normal_index: v[1], uv: (f(v[2]), f(v[3])) }).collect(),
                        flags: x.flags,
                        texture: x.texture.clone(),
                        material: x.material.clone(),
                    })
                    .collect(),
                taggs: l.taggs.iter().map(|(n, d)| (n.clone(), d.clone().into_boxed_slice())).collect(),
            })
            .collect(),
    }
}
fn of(p: &P3D) -> M {
    M {
        version: p.version,
        lods: p
            .lods
            .iter()
            .map(|l| MLod {
                major: l.version_major,
                minor: l.version_minor,
                res: l.resolution.to_bits(),
                points: l.points.iter().map(|p| [p.coords.0.to_bits(), p.coords.1.to_bits(), p.coords.2.to_bits(), p.flags]).collect(),
                normals: l.face_normals.iter().map(|p| [p.0.to_bits(), p.1.to_bits(), p.2.to_bits()]).collect(),
                faces: l
                    .faces
                    .iter()
                    .map(|x| MFace {
                        verts: x.vertices.iter().map(|v| [v.point_index, v.normal_index, v.uv.0.to_bits(), v.uv.1.to_bits()]).collect(),
                        flags: x.flags,
                        texture: x.texture.clone(),
                        material: x.material.clone(),
                    })
                    .collect(),
                taggs: l.taggs.iter().map(|(n, d)| (n.to_string(), d.to_vec())).collect(),
            })
            .collect(),
    }
}

/// takes `left` bytes, then fails
struct Full {
    left: usize,
    got: Vec<u8>,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// delivers a few bytes at a time
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

const NAMES: [&str; 12] = ["", "#Property#", "#Property#", "#UVSet#", "#SharpEdges#", "Camo", "camo", "#endoffile#", "EndOfFile", "naïve 日本", "a", "#EndOfFile# "];
const TEX: [&str; 8] = ["", "a\\b.paa", "#(argb,8,8,3)color(1,1,1,1)", "é.paa", "z/y.rvmat", "TAGG", "P3DM", "\u{1}x"];

fn bits(r: &mut Rng) -> u32 {
    match r.n(8) {
        0 => 0,
        1 => 0x8000_0000,
        2 => 0x7fc0_0000 | r.u32() & 0xffff,
        3 => 0x7f80_0000,
        4 => 1 + r.u32() & 0xff,
        5 => r.u32x(),
        6 => 0x3f80_0000,
        _ => r.u32(),
    }
}
fn model(r: &mut Rng) -> M {
    let mut m = M { version: r.u32x(), lods: vec![] };
    for _ in 0..r.n(4) {
        let mut l = MLod { major: r.u32x(), minor: r.u32x(), res: bits(r), ..MLod::default() };
        for _ in 0..r.n(5) {
            l.points.push([bits(r), bits(r), bits(r), r.u32x()]);
        }
        for _ in 0..r.n(4) {
            l.normals.push([bits(r), bits(r), bits(r)]);
        }
        for _ in 0..r.n(5) {
            let k = r.range(3, 4);
            l.faces.push(MFace { verts: (0..k).map(|_| [r.u32x(), r.u32x(), bits(r), bits(r)]).collect(), flags: r.u32x(), texture: (*r.pick(&TEX)).into(), material: (*r.pick(&TEX)).into() });
        }
        for _ in 0..r.n(5) {
            let n = if r.one_in(6) { r.range(200, 9000) } else { r.n(40) };
            l.taggs.push(((*r.pick(&NAMES)).into(), r.bytes(n)));
        }
        m.lods.push(l);
    }
    m
}
fn show(m: &M) -> String {
    let s = format!("{m:?}");
    s.chars().take(3000).collect()
}
fn read_same(b: &[u8], m: &M, what: &str) -> R {
    match P3D::read(&mut Cursor::new(b.to_vec())) {
        Ok(p) => {
            eq!(of(&p), *m, "{what}");
            Ok(())
        }
        Err(e) => Err(format!("{what}: refused: {e}")),
    }
}
/// the real reader agrees with the format on any bytes
fn agree(b: &[u8]) -> R {
    let want = dec(b);
    match (P3D::read(&mut Cursor::new(b.to_vec())), want) {
        (Err(_), None) => Ok(()),
        (Ok(p), Some(m)) => {
            eq!(of(&p), m, "model read");
            Ok(())
        }
        (Ok(_), None) => Err("a model was made of bytes that are none".into()),
        (Err(e), Some(_)) => Err(format!("refused a model: {e}")),
    }
}

pub fn run_m01(cx: &mut Cx) {
    cx.group("real file");
    if let Ok(b) = std::fs::read("/repo/libs/p3d/tests/ace_gunbag.p3d") {
        cx.case("file", "ace_gunbag.p3d read and written again", || {
            let p = P3D::read(&mut Cursor::new(b.clone())).map_err(|e| e.to_string())?;
            let mut o = vec![];
            p.write(&mut o).map_err(|e| e.to_string())?;
            ck!(o == b, "{} bytes instead of {}, first difference at {:?}", o.len(), b.len(), o.iter().zip(&b).position(|(x, y)| x != y));
            Ok(())
        });
    }
    cx.group("announced sizes");
    for which in 0..6 {
        for n in [u32::MAX, 0x8000_0000, 0x1000_0000] {
            let mut b = b"MLOD\x01\x01\0\0".to_vec();
            let u = |b: &mut Vec<u8>, x: u32| b.extend_from_slice(&x.to_le_bytes());
            u(&mut b, if which == 0 { n } else { 1 });
            if which > 0 {
                b.extend_from_slice(b"P3DM");
                for (i, z) in [28, 256, 0, 0, 0, 0].into_iter().enumerate() {
                    u(&mut b, if (1..=3).contains(&which) && i == which + 1 { n } else if which == 5 && i == 4 { 1 } else { z });
                }
                if which == 4 {
                    b.extend_from_slice(b"TAGG\x01x\0");
                    u(&mut b, n);
                }
                if which == 5 {
                    // a face with n corners
                    u(&mut b, n);
                }
            }
            cx.case("size", &hex(&b), || agree(&b));
        }
    }
    cx.group("limits of a face");
    for k in [0usize, 1, 2, 5, 6] {
        let m = M { version: 1, lods: vec![MLod { faces: vec![MFace { verts: vec![[0; 4]; k], ..MFace::default() }], ..MLod::default() }] };
        cx.case("corners", &format!("a face with {k} corners is written"), || {
            let mut o = vec![];
            ck!(real(&m).write(&mut o).is_err(), "written, though no file can hold it");
            Ok(())
        });
    }
    cx.group("models");
    while cx.time(0.45) {
        let m = model(&mut cx.rng);
        let k = cx.rng.range(1, 5);
        cx.case("model", &show(&m), || {
            let want = enc(&m);
            let mut o = vec![];
            real(&m).write(&mut o).map_err(|e| format!("not written: {e}"))?;
            ck!(o == want, "bytes differ from the format at {:?} ({} instead of {})", o.iter().zip(&want).position(|(x, y)| x != y), o.len(), want.len());
            read_same(&o, &m, "read back")?;
            let p = P3D::read(&mut Slow(Cursor::new(o), k)).map_err(|e| format!("slow device: {e}"))?;
            eq!(of(&p), m, "from a slow device");
            let mut again = vec![];
            p.write(&mut again).map_err(|e| e.to_string())?;
            ck!(again == want, "read and written again: bytes differ");
            Ok(())
        });
    }
    cx.group("failing devices");
    while cx.time(0.6) {
        let m = model(&mut cx.rng);
        let len = enc(&m).len();
        let left = if cx.rng.b() { len - 1 - cx.rng.n(len.min(64)) } else { cx.rng.n(len) };
        cx.case("full", &format!("room for {left} of {len} bytes: {}", show(&m)), || {
            let mut w = Full { left, got: vec![] };
            ck!(real(&m).write(&mut w).is_err(), "a model that was not stored ({left} of {len} bytes) is reported as written");
            Ok(())
        });
    }
    cx.group("any bytes");
    while cx.time(1.0) {
        let m = model(&mut cx.rng);
        let mut b = enc(&m);
        let r = &mut cx.rng;
        match r.n(6) {
            0 => b.truncate(r.n(b.len())),
            1 => b.extend(r.bytes(5)),
            2 => {
                let i = r.n(b.len());
                b.remove(i);
            }
            3 => {
                let i = r.n(b.len());
                b[i] = r.next() as u8;
            }
            4 => {
                for _ in 0..r.range(1, 4) {
                    let i = r.n(b.len());
                    b[i] = *r.pick(&[0, 1, 3, 4, 0x80, 0xff]);
                }
            }
            _ => {
                let i = 12.min(b.len());
                let n = r.n(30);
                b.truncate(i);
                b.extend(b"P3DM");
                b.extend(r.bytes(n));
            }
        }
        cx.case("bytes", &hex(&b), || agree(&b));
    }
}
