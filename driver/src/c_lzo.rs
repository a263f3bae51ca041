//! L01, L02: LZO on the real code, between guard pages, against an independent decoder.
use crate::*;

/// A buffer of exactly `len` bytes with inaccessible memory right after it (`end`) or right before it.
pub struct Guard {
    base: *mut u8,
    total: usize,
    ptr: *mut u8,
    len: usize,
}
impl Guard {
    pub fn new(len: usize, end: bool) -> Self {
        let page = 4096usize;
        let body = len.div_ceil(page).max(1) * page;
        let total = body + 2 * page;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0).cast::<u8>();
            assert!(base as isize != -1, "mmap");
            assert!(libc::mprotect(base.add(page).cast(), body, libc::PROT_READ | libc::PROT_WRITE) == 0);
            let ptr = if end { base.add(page + body - len) } else { base.add(page) };
            Self { base, total, ptr, len }
        }
    }
    pub fn of(data: &[u8], end: bool) -> Self {
        let g = Self::new(data.len(), end);
        g.s().copy_from_slice(data);
        g
    }
    #[allow(clippy::mut_from_ref)]
    pub fn s(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

/// The LZO1X format, written from its description; None for anything that is not a complete stream
/// or does not fit in `cap` bytes.
pub fn reference(inp: &[u8], cap: usize) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut ip = 0usize;
    let mut state = 0usize;
    if inp.len() < 3 {
        return None;
    }
    let lit = |out: &mut Vec<u8>, ip: &mut usize, n: usize| -> Option<()> {
        if *ip + n + 3 > inp.len() || out.len() + n > cap {
            return None;
        }
        out.extend_from_slice(&inp[*ip..*ip + n]);
        *ip += n;
        Some(())
    };
    let copy = |out: &mut Vec<u8>, dist: usize, n: usize| -> Option<()> {
        if dist == 0 || dist > out.len() || out.len() + n > cap {
            return None;
        }
        for _ in 0..n {
            let b = out[out.len() - dist];
            out.push(b);
        }
        Some(())
    };
    if inp[0] > 17 {
        let t = inp[0] as usize - 17;
        ip = 1;
        lit(&mut out, &mut ip, t)?;
        state = if t < 4 { t } else { 4 };
    }
    let run = |ip: &mut usize| -> Option<usize> {
        let mut z = 0usize;
        while *inp.get(*ip)? == 0 {
            z += 1;
            *ip += 1;
        }
        let v = z * 255 + inp[*ip] as usize;
        *ip += 1;
        Some(v)
    };
    loop {
        let t = *inp.get(ip)? as usize;
        ip += 1;
        let (len, dist, next);
        if t < 16 {
            if state == 0 {
                let n = 3 + if t == 0 { 15 + run(&mut ip)? } else { t };
                lit(&mut out, &mut ip, n)?;
                state = 4;
                continue;
            }
            let b = *inp.get(ip)? as usize;
            ip += 1;
            next = t & 3;
            if state == 4 {
                (len, dist) = (3, 1 + 0x800 + (t >> 2) + (b << 2));
            } else {
                (len, dist) = (2, 1 + (t >> 2) + (b << 2));
            }
        } else if t >= 64 {
            let b = *inp.get(ip)? as usize;
            ip += 1;
            next = t & 3;
            (len, dist) = ((t >> 5) + 1, 1 + ((t >> 2) & 7) + (b << 3));
        } else if t >= 32 {
            let n = if t & 31 == 0 { 31 + run(&mut ip)? } else { t & 31 };
            let w = *inp.get(ip)? as usize | (*inp.get(ip + 1)? as usize) << 8;
            ip += 2;
            next = w & 3;
            (len, dist) = (n + 2, 1 + (w >> 2));
        } else {
            let n = if t & 7 == 0 { 7 + run(&mut ip)? } else { t & 7 };
            let w = *inp.get(ip)? as usize | (*inp.get(ip + 1)? as usize) << 8;
            ip += 2;
            next = w & 3;
            let d = ((t & 8) << 11) + (w >> 2);
            if d == 0 {
                return if n == 1 && ip == inp.len() { Some(out) } else { None };
            }
            (len, dist) = (n + 2, d + 0x4000);
        }
        copy(&mut out, dist, len)?;
        state = next;
        lit(&mut out, &mut ip, next)?;
    }
}

/// A random stream of instructions, mostly well-formed.
fn gen_stream(r: &mut Rng) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut out = 0usize;
    let mut state = 0usize;
    let wild = r.one_in(6);
    let lits = |r: &mut Rng, n: usize| if r.b() { r.bytes(n) } else { vec![r.next() as u8; n] };
    let run = |o: &mut Vec<u8>, mut n: usize| {
        while n > 255 {
            o.push(0);
            n -= 255;
        }
        o.push(n as u8);
    };
    if r.b() {
        let n = if r.b() { r.range(1, 3) } else { r.range(4, 238) };
        o.push(17 + n as u8);
        o.extend(lits(r, n));
        out += n;
        state = n.min(4);
    }
    let steps = if r.one_in(5) { r.n(60) } else { r.n(12) };
    let far = r.one_in(3);
    if far && state == 0 {
        let n = r.range(3000, 70_000);
        o.push(0);
        run(&mut o, n - 18);
        o.extend(lits(r, n));
        out += n;
        state = 4;
    }
    for _ in 0..steps {
        let maxd = if wild { out + 3 } else { out };
        let next = r.n(4);
        let k = r.n(6);
        let pickd = |r: &mut Rng, lo: usize, hi: usize| -> Option<usize> {
            let hi = hi.min(maxd);
            if hi < lo { None } else if r.one_in(3) { Some(hi) } else { Some(r.range(lo, hi)) }
        };
        match k {
            0 if state == 0 => {
                let n = if r.b() { r.range(4, 18) } else { *r.pick(&[19, 20, 273, 274, 528, 529, 783, 300]) };
                if n <= 18 {
                    o.push((n - 3) as u8);
                } else {
                    o.push(0);
                    run(&mut o, n - 18);
                }
                o.extend(lits(r, n));
                out += n;
                state = 4;
            }
            1 if state != 0 && state != 4 => {
                if let Some(d) = pickd(r, 1, 0x400) {
                    o.push((((d - 1) & 3) << 2 | next) as u8);
                    o.push(((d - 1) >> 2) as u8);
                    out += 2 + next;
                    state = next;
                    o.extend(lits(r, next));
                }
            }
            2 if state == 4 => {
                if let Some(d) = pickd(r, 0x801, 0xc00) {
                    o.push((((d - 0x801) & 3) << 2 | next) as u8);
                    o.push(((d - 0x801) >> 2) as u8);
                    out += 3 + next;
                    state = next;
                    o.extend(lits(r, next));
                }
            }
            3 => {
                if let Some(d) = pickd(r, 1, 0x800) {
                    let len = r.range(3, 8);
                    o.push(((len - 1) << 5 | ((d - 1) & 7) << 2 | next) as u8);
                    o.push(((d - 1) >> 3) as u8);
                    out += len + next;
                    state = next;
                    o.extend(lits(r, next));
                }
            }
            4 => {
                if let Some(d) = pickd(r, 1, 0x4000) {
                    let len = if r.b() { r.range(3, 33) } else { *r.pick(&[34, 35, 288, 289, 543, 544, 100]) };
                    if len <= 33 {
                        o.push(32 | (len - 2) as u8);
                    } else {
                        o.push(32);
                        run(&mut o, len - 33);
                    }
                    let w = (d - 1) << 2 | next;
                    o.extend([w as u8, (w >> 8) as u8]);
                    out += len + next;
                    state = next;
                    o.extend(lits(r, next));
                }
            }
            _ => {
                if let Some(d) = pickd(r, 0x4001, 0xbfff) {
                    let len = if r.b() { r.range(3, 9) } else { *r.pick(&[10, 11, 264, 265, 519, 520, 50]) };
                    let e = d - 0x4000;
                    let hi = (e >> 11 & 8) as u8;
                    if len <= 9 {
                        o.push(16 | hi | (len - 2) as u8);
                    } else {
                        o.push(16 | hi);
                        run(&mut o, len - 9);
                    }
                    let w = (e & 0x3fff) << 2 | next;
                    o.extend([w as u8, (w >> 8) as u8]);
                    out += len + next;
                    state = next;
                    o.extend(lits(r, next));
                }
            }
        }
    }
    o.extend([17, 0, 0]);
    o
}

fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            return;
        }
        let i = r.n(v.len());
        match r.n(7) {
            0 => v[i] ^= 1 << r.n(8),
            1 => v[i] = r.next() as u8,
            2 => v[i] = 0,
            3 => v.truncate(i),
            4 => {
                v.remove(i);
            }
            5 => {
                let b = r.next() as u8;
                v.insert(i, b);
            }
            _ => {
                let n = r.n(4);
                v.truncate(v.len() - n.min(v.len()));
            }
        }
    }
}

fn dec(inp: &[u8], cap: usize, end: bool) -> R {
    let g = Guard::of(inp, end);
    let o = Guard::new(cap, end);
    let exp = reference(inp, cap);
    let out = o.s();
    // anything read that was never produced would show here
    for (i, b) in out.iter_mut().enumerate() {
        *b = (i * 37 + 11) as u8;
    }
    let got = hemtt_lzo::decompress_to_slice(g.s(), out).map(|s| (s.as_ptr() as usize, s.len(), s.to_vec())).map_err(|e| format!("{e:?}"));
    match got {
        Ok((p, n, b)) => {
            ck!(n <= cap, "reported length {n} is larger than the output buffer of {cap} bytes");
            ck!(p == o.ptr as usize, "result is not the start of the output buffer");
            match exp {
                Some(e) => ck!(e == b, "decoded {} bytes {}, the stream says {} bytes {}", b.len(), hex(&b), e.len(), hex(&e)),
                None => ck!(false, "accepted a malformed stream or one that does not fit, giving {} bytes", n),
            }
        }
        Err(e) => ck!(exp.is_none(), "refused a well-formed stream of {} bytes: {e}", exp.as_ref().map_or(0, Vec::len)),
    }
    Ok(())
}

pub fn run_l01(cx: &mut Cx) {
    cx.group("short inputs");
    // every input of up to two bytes, and every first two bytes followed by a fixed tail
    for n in 0..=2usize {
        for v in 0..(1u32 << (8 * n)) {
            let inp: Vec<u8> = (0..n).map(|i| (v >> (8 * i)) as u8).collect();
            cx.case("short", &format!("in={} out=8", hex(&inp)), || dec(&inp, 8, true));
        }
    }
    cx.group("first bytes");
    for v in 0..(1u32 << 16) {
        if !cx.time(0.2) {
            break;
        }
        let tail: &[u8] = [&[0u8, 0, 17, 0, 0][..], &[1, 2, 3, 4, 5, 6, 7, 17, 0, 0], &[17, 0, 0], &[0xff; 6]][(v % 4) as usize];
        let mut inp = vec![v as u8, (v >> 8) as u8];
        inp.extend(tail);
        let cap = [0usize, 1, 5, 64, 300][(v / 7 % 5) as usize];
        cx.case("first", &format!("in={} out={cap}", hex(&inp)), || dec(&inp, cap, v & 8 == 0));
    }
    cx.group("streams");
    while cx.time(0.9) {
        let mut s = gen_stream(&mut cx.rng);
        let whole = reference(&s, 1 << 22);
        let m = cx.rng.n(4);
        if m == 0 {
            mutate(&mut cx.rng, &mut s);
        } else if m == 1 && !s.is_empty() {
            let n = cx.rng.n(s.len());
            s.truncate(n);
        }
        let n = whole.as_ref().map_or(100, Vec::len);
        let cap = match cx.rng.n(8) {
            0..=2 => n,
            3 => n.saturating_sub(1),
            4 => n.saturating_sub(cx.rng.n(6)),
            5 => cx.rng.n(n + 1),
            6 => n + cx.rng.n(10),
            _ => n + 1,
        };
        let end = cx.rng.b();
        cx.case("stream", &format!("in={} out={cap} guard_after={end}", hex(&s)), || dec(&s, cap, end));
    }
    cx.group("random bytes");
    while cx.time(0.99) {
        let n = cx.rng.n(40);
        let mut s = cx.rng.bytes(n);
        if cx.rng.b() {
            for b in &mut s {
                if *b & 3 == 0 {
                    *b = [0, 17, 16, 32, 64, 1, 4, 18][(*b >> 2 & 7) as usize];
                }
            }
        }
        let cap = cx.rng.n(600);
        let end = cx.rng.b();
        cx.case("random", &format!("in={} out={cap} guard_after={end}", hex(&s)), || dec(&s, cap, end));
    }
    cx.group("long zero runs");
    for z in [10usize, 1000, 100_000, 5_000_000] {
        for first in [0u8, 16, 24, 32] {
            for tail in [0usize, 1, 2, 3, 300] {
                let mut s = vec![first];
                s.extend(vec![0; z]);
                s.extend(vec![1u8; tail]);
                cx.case("zeros", &format!("in={first:02x} then {z} zeros then {tail} ones out=1000"), || dec(&s, 1000, true));
            }
        }
    }
}

fn gen_data(r: &mut Rng) -> Vec<u8> {
    let target = match r.n(12) {
        0 => r.n(40),
        1 => r.range(16, 36),
        2 => r.n(300),
        3..=6 => r.n(4000),
        7 => *r.pick(&[0xbfff, 0xc000, 0xc001, 0xc014, 0xc015, 0xc01f, 0xc020, 0x18000, 0x18001]),
        8 => 0xc000 + r.n(60),
        9 => r.n(200_000),
        _ => r.n(20_000),
    };
    let mut d: Vec<u8> = vec![];
    let style = r.n(8);
    while d.len() < target {
        match style {
            0 => {
                let n = target.min(5000);
                d.extend(r.bytes(n));
            }
            1 => {
                let (b, n) = (r.next() as u8, r.range(1, 3000));
                d.extend(vec![b; n]);
            }
            2 => {
                let al = r.range(1, 5);
                let n = r.range(1, 500);
                d.extend((0..n).map(|_| r.n(al) as u8));
            }
            3 => {
                // literal runs of particular lengths between long matches
                let n = *r.pick(&[1usize, 2, 3, 4, 5, 15, 16, 17, 18, 19, 20, 31, 32, 33, 34, 35, 48, 237, 238, 239, 272, 273, 274, 275, 528, 529, 530, 783, 784, 1038]);
                d.extend(r.bytes(n));
                let (b, n) = (r.next() as u8, r.range(30, 600));
                d.extend(vec![b; n]);
            }
            _ => {
                if d.len() > 8 && r.n(3) > 0 {
                    // a match at a chosen distance and length
                    let dist = match r.n(6) {
                        0 => *r.pick(&[1usize, 2, 3, 7, 8, 9, 0x7ff, 0x800, 0x801, 0x3fff, 0x4000, 0x4001, 0x7fff, 0x8000, 0x8001, 0xbffe, 0xbfff, 0xc000, 0xc001]),
                        1 => r.range(1, 16),
                        2 => r.range(1, 0x800),
                        3 => r.range(0x800, 0x4000),
                        _ => r.range(0x4000, 0xc100),
                    };
                    let dist = dist.clamp(1, d.len());
                    let len = match r.n(4) {
                        0 => r.range(4, 12),
                        1 => *r.pick(&[8usize, 9, 10, 33, 34, 35, 263, 264, 265, 287, 288, 289, 518, 519, 520, 542, 543, 544, 800]),
                        2 => r.range(3, 40),
                        _ => r.n(700),
                    };
                    for _ in 0..len {
                        let b = d[d.len() - dist];
                        d.push(b);
                    }
                } else {
                    let n = if r.b() { r.range(1, 20) } else { r.range(1, 400) };
                    if style == 7 && r.b() {
                        let n = r.range(0x3000, 0x9000);
                        let k = r.next() as u8;
                        d.extend((0..n).map(|i| (fnv(&[k, i as u8, (i >> 8) as u8]) >> 20) as u8));
                    }
                    d.extend(r.bytes(n));
                }
            }
        }
        if style == 0 && target > 5000 {
            let n = target - d.len().min(target);
            d.extend(r.bytes(n));
        }
    }
    d.truncate(target);
    d
}

fn round(d: &[u8], end: bool) -> R {
    let w = hemtt_lzo::worst_compress(d.len());
    ck!(w == d.len() + d.len() / 16 + 67, "worst_compress({}) = {w}", d.len());
    let inp = Guard::of(d, end);
    let o = Guard::new(w, end);
    let (p, n) = {
        let c = hemtt_lzo::compress_to_slice(inp.s(), o.s()).map_err(|e| format!("compress_to_slice: {e:?}"))?;
        (c.as_ptr() as usize, c.len())
    };
    ck!(p == o.ptr as usize && n <= w, "compressed to {n} bytes, worst case {w}");
    let c = o.s()[..n].to_vec();
    ck!(inp.s() == d, "the input was changed");
    match reference(&c, d.len()) {
        Some(b) => ck!(b == d, "the compressed stream stands for other data: {} bytes instead of {}, first difference at {:?}", b.len(), d.len(), b.iter().zip(d).position(|(a, b)| a != b)),
        None => ck!(false, "the compressed stream ({} bytes: {}) is malformed or too long", c.len(), hex(&c)),
    }
    let back = Guard::new(d.len(), end);
    let cin = Guard::of(&c, end);
    let b = hemtt_lzo::decompress_to_slice(cin.s(), back.s()).map_err(|e| format!("decompress_to_slice: {e:?}"))?;
    ck!(b == d, "decompressing gives other data, {} bytes instead of {}", b.len(), d.len());
    let mut v: Vec<u8> = Vec::with_capacity(w);
    hemtt_lzo::compress(d, &mut v).map_err(|e| format!("compress: {e:?}"))?;
    ck!(v == c, "compress gives {} bytes, compress_to_slice {}", v.len(), c.len());
    Ok(())
}

/// A buffer too small for the worst case is refused, or what it receives is right and inside it.
fn small(d: &[u8], cap: usize) -> R {
    let inp = Guard::of(d, true);
    let o = Guard::new(cap, true);
    if let Ok(c) = hemtt_lzo::compress_to_slice(inp.s(), o.s()) {
        ck!(c.len() <= cap && reference(c, d.len()).as_deref() == Some(d), "accepted a buffer of {cap} bytes and produced a wrong stream");
    }
    Ok(())
}

pub fn run_l02(cx: &mut Cx) {
    cx.group("all small alphabets");
    // every string over {0,1} up to 11 characters, and every length of three simple patterns
    for n in 0..=11usize {
        for v in 0..(1u32 << n) {
            let d: Vec<u8> = (0..n).map(|i| (v >> i & 1) as u8).collect();
            cx.case("small", &format!("data={}", hex(&d)), || round(&d, true));
        }
    }
    cx.group("lengths");
    for n in (0..700usize).chain([4095, 4096, 0xbfff, 0xc000, 0xc001, 0xc015, 0xc01f, 0xc020, 0xc040, 0x18000, 0x18020]) {
        let z = vec![7u8; n];
        let inc: Vec<u8> = (0..n).map(|i| (fnv(&i.to_le_bytes()) >> 9) as u8).collect();
        let mix: Vec<u8> = (0..n).map(|i| if i % 97 < n % 89 { (fnv(&i.to_le_bytes()) >> 9) as u8 } else { 5 }).collect();
        for (k, d) in [("zeros", z), ("noise", inc), ("mixed", mix)] {
            cx.case("length", &format!("{k} of {n} bytes"), || round(&d, n % 2 == 0));
        }
    }
    cx.group("random data");
    while cx.time(0.85) {
        let d = gen_data(&mut cx.rng);
        let end = cx.rng.n(4) > 0;
        cx.case("data", &format!("data({})={}", d.len(), hex(&d)), || round(&d, end));
    }
    cx.group("buffers below the worst case");
    while cx.time(0.95) {
        let mut d = gen_data(&mut cx.rng);
        d.truncate(3000);
        let w = hemtt_lzo::worst_compress(d.len());
        let cap = if cx.rng.b() { w - 1 - cx.rng.n(67) } else { cx.rng.n(w) };
        cx.case("too-small", &format!("buffer={cap} data({})={}", d.len(), hex(&d)), || small(&d, cap));
    }
    cx.group("large");
    for n in [1usize << 20, 3_000_001] {
        for k in 0..3u64 {
            let d: Vec<u8> = (0..n).map(|i| match k { 0 => 0, 1 => (fnv(&i.to_le_bytes()) >> 9) as u8, _ => (fnv(&(i / 9).to_le_bytes()) >> 11) as u8 }).collect();
            cx.case("large", &format!("{n} bytes, pattern {k}"), || round(&d, true));
        }
    }
}
