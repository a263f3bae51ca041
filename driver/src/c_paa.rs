//! A01: textures read and written by the real code, against a codec written from the format.
use crate::*;
use hemtt_paa::{MipMap, PaXType, Paa};
use image::RgbaImage;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

const MARKS: [([u8; 2], PaXType); 9] = [
    ([1, 255], PaXType::DXT1),
    ([2, 255], PaXType::DXT2),
    ([3, 255], PaXType::DXT3),
    ([4, 255], PaXType::DXT4),
    ([5, 255], PaXType::DXT5),
    ([0x44, 0x44], PaXType::RGBA4),
    ([0x15, 0x55], PaXType::RGBA5),
    ([0x88, 0x88], PaXType::RGBA8),
    ([0x80, 0x80], PaXType::GRAYA),
];

#[derive(Clone, Debug, PartialEq)]
struct MMap {
    w: u16,
    h: u16,
    data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
struct M {
    mark: [u8; 2],
    taggs: BTreeMap<String, Vec<u8>>,
    maps: Vec<MMap>,
}

/// What the layout of the format makes of the bytes.
fn dec(b: &[u8]) -> Option<M> {
    let u32at = |s: &[u8], i: usize| Some(u32::from_le_bytes(s.get(i..i + 4)?.try_into().ok()?));
    let mark: [u8; 2] = b.get(..2)?.try_into().ok()?;
    MARKS.iter().find(|m| m.0 == mark)?;
    let mut at = 2;
    let mut taggs = BTreeMap::new();
    while b.get(at..at + 4)? == b"GGAT" {
        let name = std::str::from_utf8(b.get(at + 4..at + 8)?).ok()?.to_string();
        let n = u32at(b, at + 8)? as usize;
        taggs.insert(name, b.get(at + 12..at + 12 + n)?.to_vec());
        at += 12 + n;
    }
    let mut maps = vec![];
    if let Some(o) = taggs.get("SFFO") {
        for k in 0..o.len() / 4 {
            let p = u32at(o, 4 * k)? as usize;
            if p == 0 {
                continue;
            }
            if ![[1, 255], [3, 255], [5, 255]].contains(&mark) {
                return None;
            }
            let s = b.get(p..)?;
            let n = u32::from_le_bytes([*s.get(4)?, *s.get(5)?, *s.get(6)?, 0]) as usize;
            maps.push(MMap { w: u16::from_le_bytes([s[0], s[1]]), h: u16::from_le_bytes([s[2], s[3]]), data: s.get(7..7 + n)?.to_vec() });
        }
    }
    Some(M { mark, taggs, maps })
}
fn of(p: &Paa) -> M {
    M {
        mark: p.format().as_bytes(),
        taggs: p.taggs().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        maps: p.maps().iter().map(of_map).collect(),
    }
}
fn of_map(m: &MipMap) -> MMap {
    MMap { w: m.width() | if m.is_compressed() { 0x8000 } else { 0 }, h: m.height(), data: m.data().clone() }
}
fn name_of(mark: [u8; 2]) -> &'static str {
    match mark {
        [1, _] => "Bc1",
        [3, _] => "Bc2",
        _ => "Bc3",
    }
}
fn agree(b: &[u8]) -> R {
    let want = dec(b);
    match (Paa::read(Cursor::new(b.to_vec())), want) {
        (Ok(p), Some(m)) => {
            eq!(of(&p), m, "what was read");
            for x in p.maps() {
                ck!(x.width() < 0x8000, "width {} with the flag", x.width());
                eq!(x.format_display(), name_of(m.mark), "block format");
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(p), None) => Err(format!("accepted, though the layout gives nothing: {:?}", of(&p))),
        (Err(e), Some(m)) => Err(format!("refused ({e}), though the layout gives {m:?}")),
    }
}
/// delivers a few bytes at a time
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
struct Full {
    left: usize,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// a picture whose blocks of 4 by 4 have one colour each, of channels that every block format keeps exactly
struct Blocky {
    w: u32,
    h: u32,
    cols: Vec<[u8; 4]>,
}
impl Blocky {
    fn new(rng: &mut Rng, w: u32, h: u32, alpha: bool) -> Self {
        let n = (w.div_ceil(4) * h.div_ceil(4)) as usize;
        let cols = (0..n).map(|_| std::array::from_fn(|c| if (c == 3 && !alpha) || rng.b() { 255 } else { 0 })).collect();
        Self { w, h, cols }
    }
    fn at(&self, x: u32, y: u32) -> [u8; 4] {
        self.cols[(y / 4 * self.w.div_ceil(4) + x / 4) as usize]
    }
    fn image(&self) -> RgbaImage {
        RgbaImage::from_fn(self.w, self.h, |x, y| image::Rgba(self.at(x, y)))
    }
    fn blocks(&self, mark: [u8; 2]) -> Vec<u8> {
        let mut o = vec![];
        for c in &self.cols {
            match mark[0] {
                1 => {}
                3 => o.extend([c[3]; 8]),
                _ => o.extend([c[3], c[3], 0, 0, 0, 0, 0, 0]),
            }
            let v = (u16::from(c[0]) >> 3) << 11 | (u16::from(c[1]) >> 2) << 5 | u16::from(c[2]) >> 3;
            o.extend(v.to_le_bytes());
            o.extend(v.to_le_bytes());
            o.extend([0; 4]);
        }
        o
    }
}
fn same_pixels(got: &image::DynamicImage, want: &RgbaImage, what: &str) -> R {
    let g = got.to_rgba8();
    eq!(g.dimensions(), want.dimensions(), "{what}: sides");
    for (x, y, p) in want.enumerate_pixels() {
        ck!(g.get_pixel(x, y) == p, "{what}: pixel {x},{y} is {:?}, not {:?}", g.get_pixel(x, y).0, p.0);
    }
    Ok(())
}
/// a file of tags and mip maps at chosen places
fn build(rng: &mut Rng, mark: [u8; 2], maps: &[MMap]) -> Vec<u8> {
    let mut o = mark.to_vec();
    for _ in 0..rng.n(4) {
        let name: &[u8] = rng.pick(&[b"CGVA".as_slice(), b"CXAM", b"GALF", b"ZIWS", "é??".as_bytes(), b"SFFO", b"GGAT", b"\0\0\0\0"]);
        let n = *rng.pick(&[0, 1, 3, 4, 5, 17, 64]);
        let d = if name == b"SFFO" { vec![0; n] } else { rng.bytes(n) };
        let mut d2 = d;
        d2.resize(n, 7);
        if name == b"SFFO" {
            d2.iter_mut().for_each(|x| *x = 0);
        }
        o.extend(b"GGAT");
        o.extend(name);
        o.extend((d2.len() as u32).to_le_bytes());
        o.extend(d2);
    }
    // the offsets of the maps, zeros in between
    let mut slots: Vec<Option<usize>> = (0..maps.len()).map(Some).collect();
    for _ in 0..rng.n(4) {
        let i = rng.n(slots.len() + 1);
        slots.insert(i, None);
    }
    let odd = rng.n(4);
    let table = 4 * slots.len() + odd;
    let gap = if rng.b() { 0 } else { rng.n(9) };
    let start = o.len() + 12 + table;
    let mut body = vec![];
    let mut places = vec![0; maps.len()];
    let mut order: Vec<usize> = (0..maps.len()).collect();
    rng.shuffle(&mut order);
    body.extend(vec![0xee; gap]);
    for i in order {
        places[i] = start + body.len();
        body.extend(maps[i].w.to_le_bytes());
        body.extend(maps[i].h.to_le_bytes());
        body.extend(&(maps[i].data.len() as u32).to_le_bytes()[..3]);
        body.extend(&maps[i].data);
        body.extend(vec![0x99; rng.n(3)]);
    }
    body.extend([0; 6]);
    o.extend(b"GGATSFFO");
    o.extend((table as u32).to_le_bytes());
    for s in slots {
        o.extend((s.map_or(0, |i| places[i]) as u32).to_le_bytes());
    }
    o.extend(vec![1; odd]);
    o.extend(body);
    o
}
fn pixels(rng: &mut Rng) -> RgbaImage {
    let (w, h) = (rng.range(1, 13) as u32, rng.range(1, 13) as u32);
    let k = rng.n(4);
    RgbaImage::from_fn(w, h, |_, _| {
        image::Rgba(match k {
            0 => [255; 4],
            1 => std::array::from_fn(|_| *rng.pick(&[0u8, 1, 127, 128, 254, 255])),
            2 => [0, 0, 0, 255],
            _ => std::array::from_fn(|_| rng.next() as u8),
        })
    })
}
/// everything a written texture must hold
fn written(img: &RgbaImage, o: &[u8]) -> R {
    let m = dec(o).ok_or("the layout gives nothing for what was written")?;
    let n = u64::from(img.width()) * u64::from(img.height());
    let mut sum = [0u64; 4];
    let mut max = [0u8; 4];
    for p in img.pixels() {
        for c in 0..4 {
            sum[c] += u64::from(p.0[c]);
            max[c] = max[c].max(p.0[c]);
        }
    }
    eq!(m.mark, [5, 255], "type marker");
    eq!(m.taggs.keys().cloned().collect::<Vec<_>>(), vec!["CGVA".to_string(), "CXAM".to_string(), "SFFO".to_string()], "tags");
    eq!(m.taggs["CGVA"], sum.map(|s| (s / n) as u8).to_vec(), "mean colour");
    eq!(m.taggs["CXAM"], max.to_vec(), "highest colour");
    eq!(m.taggs["SFFO"].len(), 64, "offset table");
    eq!(m.maps.len(), 1, "mip maps");
    eq!((u32::from(m.maps[0].w), u32::from(m.maps[0].h)), img.dimensions(), "sides");
    eq!(m.maps[0].data.len() as u32, img.width().div_ceil(4) * img.height().div_ceil(4) * 16, "room of the blocks");
    eq!(o.len(), 110 + 7 + m.maps[0].data.len(), "length of the file");
    agree(o)
}
fn to_bytes(img: &RgbaImage) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    Paa::write(img, &mut o).map_err(|e| format!("not written: {e}"))?;
    Ok(o)
}

pub fn run_a01(cx: &mut Cx) {
    cx.group("type markers");
    for a in 0..=255u8 {
        cx.case("marker", &format!("markers {a:02x}.."), || {
            for b in 0..=255u8 {
                let want = MARKS.iter().find(|m| m.0 == [a, b]).map(|m| m.1.clone());
                eq!(PaXType::from_bytes([a, b]), want, "from_bytes of {a:02x}{b:02x}");
                eq!(PaXType::from_stream(&mut Cursor::new([a, b, 9])), want, "from_stream of {a:02x}{b:02x}");
                if let Some(p) = want {
                    eq!(p.as_bytes(), [a, b], "as_bytes");
                }
            }
            Ok(())
        });
    }
    for k in 0..2 {
        cx.case("marker", &format!("{k} bytes"), || {
            eq!(PaXType::from_stream(&mut Cursor::new(vec![5; k])), None, "from_stream of {k} bytes");
            Ok(())
        });
    }
    cx.group("sides at the limits");
    for (w, h, ok) in [
        (0, 0, false), (0, 4, false), (4, 0, false), (1, 1, true), (1, 65535, true), (32767, 1, true), (32767, 5, true), (5, 65535, true),
        (32768, 1, false), (65535, 1, false), (65536, 4, false), (1, 65536, false), (1, 70000, false), (4096, 4096, false), (16384, 1024, false), (2048, 2048, true), (4096, 4092, true),
    ] {
        if (w * h > 4_000_000) && ok && cx.secs < 30.0 {
            continue;
        }
        cx.case("limit", &format!("picture of {w} by {h}"), || {
            let img = RgbaImage::from_fn(w, h, |x, y| image::Rgba([255, (x % 3) as u8, (y % 2) as u8 * 255, 254]));
            let mut o = vec![];
            match (Paa::write(&img, &mut o), ok) {
                (Ok(()), true) => written(&img, &o),
                (Err(_), false) => Ok(()),
                (Ok(()), false) => Err("written, though the format has no room for it".into()),
                (Err(e), true) => Err(format!("not written: {e}")),
            }
        });
    }
    cx.group("pictures written");
    while cx.time(0.3) {
        let img = pixels(&mut cx.rng);
        let k = cx.rng.range(1, 5);
        cx.case("picture", &format!("{}x{} {}", img.width(), img.height(), hex(img.as_raw())), || {
            let o = to_bytes(&img)?;
            written(&img, &o)?;
            let p = Paa::read(Slow(Cursor::new(o), k)).map_err(|e| format!("slow device: {e}"))?;
            eq!(p.maps().len(), 1, "mip maps from a slow device");
            let g = p.maps()[0].get_image();
            eq!((g.width(), g.height()), img.dimensions(), "sides of the picture");
            Ok(())
        });
        let (w, h) = (cx.rng.range(1, 18) as u32, cx.rng.range(1, 18) as u32);
        let b = Blocky::new(&mut cx.rng, w, h, true);
        cx.case("colours", &format!("{w}x{h} blocks {:?}", b.cols), || {
            let img = b.image();
            let o = to_bytes(&img)?;
            written(&img, &o)?;
            let p = Paa::read(Cursor::new(o)).map_err(|e| e.to_string())?;
            same_pixels(&p.maps()[0].get_image(), &img, "written and read")
        });
        let left = cx.rng.n(110 + 7 + (img.width().div_ceil(4) * img.height().div_ceil(4) * 16) as usize);
        cx.case("full", &format!("{}x{} room for {left}", img.width(), img.height()), || {
            ck!(Paa::write(&img, &mut Full { left }).is_err(), "reported as written, though the device was full");
            Ok(())
        });
    }
    cx.group("mip maps");
    while cx.time(0.6) {
        let mark = *cx.rng.pick(&[[1, 255], [3, 255], [5, 255]]);
        let mut maps = vec![];
        let mut imgs = vec![];
        for _ in 0..cx.rng.n(5) {
            let (w, h) = if cx.rng.one_in(20) { (cx.rng.range(1, 400) as u32, cx.rng.range(1, 60) as u32) } else { (cx.rng.range(1, 20) as u32, cx.rng.range(1, 20) as u32) };
            let b = Blocky::new(&mut cx.rng, w, h, mark[0] != 1);
            let mut data = b.blocks(mark);
            let mut flag = 0;
            if cx.rng.b() {
                let mut z = vec![];
                if hemtt_lzo::compress(&data, &mut z).is_ok() {
                    data = z;
                    flag = 0x8000;
                }
            }
            imgs.push(b.image());
            maps.push(MMap { w: w as u16 | flag, h: h as u16, data });
        }
        let f = build(&mut cx.rng, mark, &maps);
        cx.case("maps", &format!("{:?} {}", maps.iter().map(|m| (m.w, m.h)).collect::<Vec<_>>(), hex(&f)), || {
            agree(&f)?;
            let p = Paa::read(Cursor::new(f.clone())).map_err(|e| e.to_string())?;
            eq!(p.maps().iter().map(of_map).collect::<Vec<_>>(), maps, "mip maps");
            for (k, (m, i)) in p.maps().iter().zip(&imgs).enumerate() {
                same_pixels(&m.get_image(), i, &format!("mip map {k}"))?;
            }
            Ok(())
        });
    }
    cx.group("any bytes");
    while cx.time(1.0) {
        let mark = if cx.rng.one_in(3) { cx.rng.pick(&MARKS).0 } else { [5, 255] };
        let maps: Vec<MMap> = (0..cx.rng.n(3))
            .map(|_| {
                let n = cx.rng.n(40);
                MMap { w: cx.rng.u32x() as u16, h: cx.rng.u32x() as u16, data: cx.rng.bytes(n) }
            })
            .collect();
        let mut b = build(&mut cx.rng, mark, &maps);
        let r = &mut cx.rng;
        match r.n(7) {
            0 => b.truncate(r.n(b.len())),
            1 => {
                let i = r.n(b.len());
                b.remove(i);
            }
            2 => {
                let i = r.n(b.len());
                b[i] = r.next() as u8;
            }
            3 => {
                for _ in 0..r.range(1, 4) {
                    let i = r.n(b.len());
                    b[i] = *r.pick(&[0, 1, 3, 4, 0x80, 0xff]);
                }
            }
            4 => b.truncate(2 + r.n(16)),
            _ => {}
        }
        cx.case("bytes", &hex(&b), || agree(&b));
    }
}
