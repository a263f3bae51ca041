use crate::*;
use hemtt_common::io::{compressed_int_len, ReadExt, WriteExt};
use std::io::{Cursor, Read};

/// A reader that hands out its bytes in pieces chosen by a generator.
pub struct Dribble {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
}
impl Read for Dribble {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        let mut n = buf.len().min(left);
        if n > 1 {
            n = self.rng.range(1, n);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn enc(mut x: u32) -> Vec<u8> {
    let mut v = vec![];
    while x >= 128 {
        v.push((x % 128 + 128) as u8);
        x /= 128;
    }
    v.push(x as u8);
    v
}

pub fn c01(cx: &mut Cx) {
    cx.group("compact integers: boundary and random values");
    let mut xs: Vec<u32> = vec![];
    for k in 0..33u32 {
        let p = 1u64 << k;
        for d in -3i64..=3 {
            let v = p as i64 + d;
            if (0..=u32::MAX as i64).contains(&v) {
                xs.push(v as u32);
            }
        }
    }
    xs.extend(0..20000);
    for _ in 0..60000 {
        let v = cx.rng.u32x();
        xs.push(v);
        xs.push(cx.rng.u32());
    }
    for x in xs {
        let taillen = cx.rng.n(4);
        let tail = cx.rng.bytes(taillen);
        cx.case("compact-int", &format!("x={x:#x} tail={}", hex(&tail)), || {
            let mut b = vec![];
            let n = b.write_compressed_int(x).map_err(|e| format!("write failed: {e}"))?;
            eq!(n, b.len(), "reported length of the written compact integer");
            eq!(compressed_int_len(x), b.len(), "announced length of the compact integer");
            eq!(b, enc(x), "encoded bytes");
            let l = b.len();
            b.extend(&tail);
            let mut c = Cursor::new(b);
            let y = c.read_compressed_int().map_err(|e| format!("read failed: {e}"))?;
            eq!(y, x, "value read back");
            eq!(c.position() as usize, l, "bytes consumed");
            Ok(())
        });
    }
    cx.group("strings");
    let pool: Vec<char> = "aZ09 _\\/.,;\"'\u{1}\u{7f}\u{80}\u{e9}\u{ff}\u{7ff}\u{800}\u{20ac}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars().collect();
    for i in 0..30000 {
        let len = match cx.rng.n(12) {
            0 => 0,
            1 => cx.rng.range(100, 600),
            2 if i % 50 == 0 => cx.rng.range(1000, 70000),
            _ => cx.rng.n(20),
        };
        let s: String = (0..len).map(|_| *cx.rng.pick(&pool)).collect();
        let tn = cx.rng.n(6);
        let tail = cx.rng.bytes(tn);
        let drib = cx.rng.next();
        cx.case("cstring", &format!("s={:?} tail={}", s, hex(&tail)), || {
            let mut b = vec![];
            b.write_cstring(&s).map_err(|e| format!("write failed: {e}"))?;
            let mut want = s.clone().into_bytes();
            want.push(0);
            eq!(b, want, "bytes written for the string");
            let l = b.len();
            b.extend(&tail);
            let mut c = Cursor::new(b.clone());
            let y = c.read_cstring().map_err(|e| format!("read failed: {e}"))?;
            eq!(y, s, "string read back");
            eq!(c.position() as usize, l, "bytes consumed");
            let mut d = Dribble { data: b, pos: 0, rng: Rng(drib) };
            eq!(d.read_cstring().map_err(|e| format!("read failed: {e}"))?, s, "string read back from a slow device");
            eq!(d.pos, l, "bytes consumed from a slow device");
            Ok(())
        });
    }
    cx.group("sequences of fields and arbitrary bytes");
    for _ in 0..8000 {
        let n = cx.rng.range(1, 8);
        let items: Vec<Result<u32, String>> = (0..n)
            .map(|_| {
                if cx.rng.b() {
                    Ok(cx.rng.u32x())
                } else {
                    let l = cx.rng.n(10);
                    Err((0..l).map(|_| *cx.rng.pick(&pool)).collect())
                }
            })
            .collect();
        cx.case("sequence", &format!("{items:?}"), || {
            let mut b = vec![];
            for i in &items {
                match i {
                    Ok(x) => {
                        b.write_compressed_int(*x).map_err(|e| e.to_string())?;
                    }
                    Err(s) => b.write_cstring(s.as_bytes()).map_err(|e| e.to_string())?,
                }
            }
            let mut c = Cursor::new(&b);
            for i in &items {
                match i {
                    Ok(x) => eq!(c.read_compressed_int().map_err(|e| e.to_string())?, *x, "field"),
                    Err(s) => eq!(&c.read_cstring().map_err(|e| e.to_string())?, s, "field"),
                }
            }
            eq!(c.position() as usize, b.len(), "everything consumed");
            Ok(())
        });
    }
    for _ in 0..40000 {
        let n = cx.rng.n(14);
        let hi = cx.rng.b();
        let b: Vec<u8> = cx.rng.bytes(n).into_iter().map(|x| if hi { x | 0x80 } else { x }).collect();
        cx.case("arbitrary-bytes", &hex(&b), || {
            let mut c = Cursor::new(&b);
            let r = c.read_compressed_int();
            // a well-formed value (at most 32 bits) is read as such
            if let Some(k) = b.iter().position(|x| *x < 0x80) {
                let v: u128 = b[..=k].iter().enumerate().map(|(i, x)| u128::from(x & 0x7f) << (7 * i)).sum();
                if k < 5 && v <= u128::from(u32::MAX) {
                    eq!(r.map_err(|e| e.to_string())?, v as u32, "value of a well-formed integer");
                    eq!(c.position() as usize, k + 1, "bytes consumed");
                }
            }
            let _ = Cursor::new(&b).read_cstring();
            Ok(())
        });
    }
}
