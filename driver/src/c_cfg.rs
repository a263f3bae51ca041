//! R01, R02: configs through the preprocessor, the parser and the binarizer, read back by an independent decoder.
use crate::*;
use hemtt_config::rapify::Rapify;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(String),
    I(i32),
    L(i64),
    F(u32),
    E(String),
    A(Vec<V>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    C(C),
    Ext,
    Del,
    V(V),
    Arr(bool, Vec<V>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct C {
    pub parent: String,
    pub props: Vec<(String, P)>,
}

// ---------------------------------------------------------------- decoding
struct D<'a> {
    b: &'a [u8],
    /// parts read, in the order of reading
    seen: Vec<(usize, usize)>,
}
impl D<'_> {
    fn take(&mut self, p: &mut usize, n: usize) -> Result<Vec<u8>, String> {
        if *p + n > self.b.len() {
            return Err(format!("read of {n} bytes at {p} leaves the file of {} bytes", self.b.len()));
        }
        let r = self.b[*p..*p + n].to_vec();
        self.seen.push((*p, *p + n));
        *p += n;
        Ok(r)
    }
    fn u8(&mut self, p: &mut usize) -> Result<u8, String> {
        Ok(self.take(p, 1)?[0])
    }
    fn u32(&mut self, p: &mut usize) -> Result<u32, String> {
        let b = self.take(p, 4)?;
        Ok(b.iter().rev().fold(0u32, |a, x| (a << 8) | u32::from(*x)))
    }
    fn cstr(&mut self, p: &mut usize) -> Result<String, String> {
        let mut n = 0;
        while *p + n < self.b.len() && self.b[*p + n] != 0 {
            n += 1;
        }
        let v = self.take(p, n + 1)?;
        String::from_utf8(v[..n].to_vec()).map_err(|_| "text is not UTF-8".to_string())
    }
    fn cint(&mut self, p: &mut usize) -> Result<usize, String> {
        let mut r = 0usize;
        for i in 0..5 {
            let b = self.u8(p)?;
            r |= ((b & 0x7f) as usize) << (7 * i);
            if b < 0x80 {
                return Ok(r);
            }
        }
        Err("a count of more than five bytes".into())
    }
    fn value(&mut self, p: &mut usize, tag: u8) -> Result<V, String> {
        Ok(match tag {
            0 => V::S(self.cstr(p)?),
            1 => V::F(self.u32(p)?),
            2 => V::I(self.u32(p)? as i32),
            3 => V::A(self.array(p)?),
            4 => V::E(self.cstr(p)?),
            6 => {
                let lo = u64::from(self.u32(p)?);
                let hi = u64::from(self.u32(p)?);
                V::L((hi << 32 | lo) as i64)
            }
            t => return Err(format!("unknown value tag {t} at {}", *p - 1)),
        })
    }
    fn array(&mut self, p: &mut usize) -> Result<Vec<V>, String> {
        let n = self.cint(p)?;
        let mut v = vec![];
        for _ in 0..n {
            let t = self.u8(p)?;
            v.push(self.value(p, t)?);
        }
        Ok(v)
    }
    /// The class whose body starts at p; gives the class and where its data end.
    fn class(&mut self, mut p: usize) -> Result<(C, usize), String> {
        let mut c = C { parent: self.cstr(&mut p)?, props: vec![] };
        let n = self.cint(&mut p)?;
        let mut bodies = vec![];
        for i in 0..n {
            let t = self.u8(&mut p)?;
            match t {
                0 => {
                    let name = self.cstr(&mut p)?;
                    let at = self.u32(&mut p)? as usize;
                    bodies.push((i, at));
                    c.props.push((name, P::C(C::default())));
                }
                1 => {
                    let tag = self.u8(&mut p)?;
                    let name = self.cstr(&mut p)?;
                    let v = self.value(&mut p, tag)?;
                    c.props.push((name, P::V(v)));
                }
                2 => {
                    let name = self.cstr(&mut p)?;
                    let v = self.array(&mut p)?;
                    c.props.push((name, P::Arr(false, v)));
                }
                3 => {
                    let name = self.cstr(&mut p)?;
                    c.props.push((name, P::Ext));
                }
                4 => {
                    let name = self.cstr(&mut p)?;
                    c.props.push((name, P::Del));
                }
                5 => {
                    let f = self.u32(&mut p)?;
                    ck!(f == 1, "appended array with flag {f}");
                    let name = self.cstr(&mut p)?;
                    let v = self.array(&mut p)?;
                    c.props.push((name, P::Arr(true, v)));
                }
                t => return Err(format!("unknown entry type {t} at {}", p - 1)),
            }
        }
        let end = self.u32(&mut p)? as usize;
        for (i, at) in bodies {
            ck!(at == p, "class body announced at {at}, the bodies so far end at {p}");
            let (b, e) = self.class(at)?;
            c.props[i].1 = P::C(b);
            p = e;
        }
        ck!(end == p, "class announced to end at {end}, it ends at {p}");
        Ok((c, p))
    }
}

fn decode(b: &[u8]) -> Result<C, String> {
    let mut d = D { b, seen: vec![] };
    let mut p = 0;
    let magic = d.take(&mut p, 12)?;
    ck!(magic == b"\0raP\0\0\0\0\x08\0\0\0", "header {}", hex(&magic));
    let en = d.u32(&mut p)? as usize;
    let (c, e) = d.class(p)?;
    ck!(e == en, "enum offset {en}, the classes end at {e}");
    p = en;
    let z = d.take(&mut p, 4)?;
    ck!(z == [0, 0, 0, 0], "enum section {}", hex(&z));
    ck!(p == b.len(), "{} bytes after the end", b.len() - p);
    Ok(c)
}

// ---------------------------------------------------------------- the code under test
/// source -> binarized, with the checks every binarization must pass
fn binarize(src: &str) -> Result<Vec<u8>, String> {
    let p = c_pre::pre(&[("config.cpp".into(), src.into())]).map_err(|e| format!("preprocess: {e}"))?;
    let r = hemtt_config::parse(None, &p).map_err(|c| format!("parse: {}", c.iter().map(|c| c.message()).collect::<Vec<_>>().join("; ")))?;
    let bad: Vec<String> = r.errors().iter().map(|c| c.ident().to_string()).collect();
    if let Some(b) = bad.iter().find(|b| ["L-C01", "L-C06", "L-C07", "L-C08", "L-C10"].contains(&b.as_str())) {
        return Err(format!("refused: {b}"));
    }
    let c = r.config();
    let mut out = vec![];
    let n = c.rapify(&mut out, 0).map_err(|e| format!("rapify: {e}"))?;
    ck!(n == out.len() && c.rapified_length() == n, "announced {}, reported {n}, written {}", c.rapified_length(), out.len());
    // a device that takes one byte at a time
    let mut slow = Slow(vec![]);
    let m = c.rapify(&mut slow, 0).map_err(|e| format!("rapify: {e}"))?;
    ck!(m == n && slow.0 == out, "a slow device gets other bytes");
    // a device that is full must give an error
    if n > 0 {
        let mut full = Full(n - 1);
        ck!(c.rapify(&mut full, 0).is_err(), "a device with room for {} of {n} bytes gives no error", n - 1);
    }
    Ok(out)
}
struct Slow(Vec<u8>);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- generation
fn sp(r: &mut Rng) -> &'static str {
    ["", "", " ", "  ", "\n", "\t", " \n "][r.n(7)]
}
fn name(r: &mut Rng, k: usize) -> String {
    let base = ["a", "CfgPatches", "Units", "x", "displayName", "class_", "deleted", "_", "A1", "ui", "EvAl"][r.n(11)];
    format!("{base}_{k}")
}
fn text(r: &mut Rng) -> String {
    let n = match r.n(12) {
        0 => 0,
        1 => r.range(120, 140),
        2 => r.range(250, 270),
        _ => r.n(12),
    };
    const A: [&str; 30] = [
        "a", "b", "Z", "0", " ", "\"", "\"", ",", ";", "{", "}", "(", ")", "//", "/*", "*/", "'", "\\", "#", "##", "é", "ß", "漢", "🙂", "=", "[]", "%1", "<br/>", "1e5", "\\n",
    ];
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(A[r.n(30)]);
    }
    s
}
fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\"\""))
}
/// a number as written, and its value
pub fn number(r: &mut Rng) -> (String, V) {
    match r.n(14) {
        0 => {
            let v = [0i64, 1, 2147483647, 2147483646, 127, 128, 255, 256, 65535, 1_000_000][r.n(10)];
            (v.to_string(), V::I(v as i32))
        }
        1 => {
            let v = [-1i64, -2147483648, -2147483647, -127, -128, -65536][r.n(6)];
            (v.to_string(), V::I(v as i32))
        }
        2 => {
            let v = [2147483648i64, 4294967295, 4294967296, 9223372036854775807, -2147483649, -4294967296][r.n(6)];
            (v.to_string(), V::L(v))
        }
        3 => {
            let v = r.u32() as i32;
            let z = if r.one_in(4) && v >= 0 { "000" } else { "" };
            (format!("{z}{v}"), V::I(v))
        }
        4 | 5 => {
            let v = r.n(40) as i32 - 20;
            (v.to_string(), V::I(v))
        }
        6 => {
            let v = (r.u32() >> r.n(32)) as i64;
            let s = if r.b() { format!("0x{v:x}") } else { format!("0x{v:X}") };
            (s, if v > i64::from(i32::MAX) { V::L(v) } else { V::I(v as i32) })
        }
        7 => {
            let v = r.u32() >> 1;
            (format!("-0x{v:x}"), V::I(-(v as i32)))
        }
        8 => flt(format!("{}{}.{}", if r.one_in(3) { "-" } else { "" }, r.n(1000), r.n(100_000))),
        9 => flt(format!("{}.{}{}", r.u32() >> r.n(32), r.u32(), r.u32())),
        10 => flt(format!("{}.0", r.u32() >> r.n(32))),
        11 => flt(format!("{}{}.{}{}{}{}", if r.one_in(3) { "-" } else { "" }, r.n(100), r.n(1000), ["e", "E"][r.n(2)], ["", "+", "-"][r.n(3)], r.n(48))),
        12 => flt(format!("{}{}{}{}", r.n(10000), ["e", "E"][r.n(2)], ["", "+", "-"][r.n(3)], r.n(42))),
        _ => flt(format!("{}.{}", if r.one_in(3) { "-" } else { "" }, r.n(100_000))),
    }
}
fn flt(s: String) -> (String, V) {
    // the nearest single: Rust's own decimal conversion is the oracle
    let v: f32 = s.parse().unwrap();
    (s, V::F(v.to_bits()))
}
fn item(r: &mut Rng, depth: usize, big: bool) -> (String, V) {
    if depth > 0 && r.one_in(3) {
        let (s, v) = array(r, depth - 1, big);
        return (s, V::A(v));
    }
    if r.b() {
        let t = text(r);
        (quoted(&t), V::S(t))
    } else {
        number(r)
    }
}
fn array(r: &mut Rng, depth: usize, big: bool) -> (String, Vec<V>) {
    let n = if big && r.one_in(6) { r.range(126, 130) } else { r.n(5) };
    let mut s = format!("{{{}", sp(r));
    let mut v = vec![];
    for i in 0..n {
        let (t, x) = item(r, depth, big && n < 5);
        s.push_str(&t);
        s.push_str(sp(r));
        if i + 1 < n || r.one_in(5) {
            s.push(',');
            s.push_str(sp(r));
        }
        v.push(x);
    }
    s.push('}');
    (s, v)
}
struct G {
    k: usize,
    budget: usize,
}
fn class_body(r: &mut Rng, g: &mut G, depth: usize, n: usize, src: &mut String, c: &mut C) {
    for _ in 0..n {
        if g.budget == 0 {
            return;
        }
        g.budget -= 1;
        g.k += 1;
        let mut nm = name(r, g.k);
        if r.one_in(40) {
            nm = format!("{nm}_{}", "x".repeat(r.range(100, 300)));
        }
        src.push_str(sp(r));
        match r.n(if depth > 0 { 10 } else { 7 }) {
            0 | 1 => {
                let (s, v) = number(r);
                src.push_str(&format!("{nm}{}={}{s}{}", sp(r), sp(r), sp(r)));
                c.props.push((nm, P::V(v)));
            }
            2 => {
                let t = text(r);
                src.push_str(&format!("{nm}{}={}{}{}", sp(r), sp(r), quoted(&t), sp(r)));
                c.props.push((nm, P::V(V::S(t))));
            }
            3 | 4 => {
                let (s, v) = array(r, 4, true);
                let ex = r.one_in(3);
                src.push_str(&format!("{nm}[]{}{}{}{s}{}", sp(r), if ex { "+=" } else { "=" }, sp(r), sp(r)));
                c.props.push((nm, P::Arr(ex, v)));
            }
            5 => {
                if r.b() {
                    src.push_str(&format!("class {nm}"));
                    c.props.push((nm, P::Ext));
                } else {
                    src.push_str(&format!("delete {nm}"));
                    c.props.push((nm, P::Del));
                }
            }
            6 => {
                let e = ["1+1", "getResolution select 0", "(1 + (2))", "a (b) c"][r.n(4)];
                src.push_str(&format!("{nm} = __EVAL({e})"));
                c.props.push((nm, P::V(V::E(e.to_string()))));
            }
            _ => {
                let parent = if r.b() { String::new() } else { name(r, g.k) };
                src.push_str(&format!("class {nm}"));
                if !parent.is_empty() {
                    src.push_str(&format!("{}:{}{parent}", sp(r), sp(r)));
                }
                src.push_str(sp(r));
                src.push('{');
                let mut b = C { parent, props: vec![] };
                let n = if r.one_in(25) { r.range(120, 140) } else { r.n(5) };
                class_body(r, g, depth - 1, n, src, &mut b);
                src.push_str(sp(r));
                src.push('}');
                c.props.push((nm, P::C(b)));
            }
        }
        src.push(';');
        src.push_str(sp(r));
    }
}
fn diff(a: &C, b: &C, path: &str) -> Option<String> {
    if a.parent != b.parent {
        return Some(format!("{path}: parent {:?}, written {:?}", a.parent, b.parent));
    }
    for (i, (x, y)) in a.props.iter().zip(&b.props).enumerate() {
        if x.0 != y.0 {
            return Some(format!("{path}[{i}]: name {:?}, written {:?}", x.0, y.0));
        }
        if let (P::C(p), P::C(q)) = (&x.1, &y.1) {
            if let Some(d) = diff(p, q, &format!("{path}/{}", x.0)) {
                return Some(d);
            }
        } else if x.1 != y.1 {
            return Some(format!("{path}/{}: {:?}, written {:?}", x.0, x.1, y.1));
        }
    }
    (a.props.len() != b.props.len()).then(|| format!("{path}: {} properties, written {}", a.props.len(), b.props.len()))
}
fn check(src: &str, want: &C) -> R {
    let b = binarize(src)?;
    let got = decode(&b)?;
    match diff(&got, want, "") {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

pub fn run_r01(cx: &mut Cx) {
    cx.group("configs of up to 400 properties, depth 6");
    // empty, one class, powers of 128
    for n in [0usize, 1, 127, 128, 129] {
        let mut c = C::default();
        let mut s = String::new();
        for i in 0..n {
            c.props.push((format!("p{i}"), P::V(V::I(i as i32))));
            s.push_str(&format!("p{i}={i};"));
        }
        cx.case("count", &format!("{n} properties"), || check(&s, &c));
    }
    {
        let n = 16_400usize;
        let v: Vec<V> = (0..n).map(|i| V::I(i as i32)).collect();
        let s = format!("a[]={{{}}};b=1;", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let c = C { parent: String::new(), props: vec![("a".into(), P::Arr(false, v)), ("b".into(), P::V(V::I(1)))] };
        cx.case("count", &format!("array of {n}"), || check(&s, &c));
    }
    for n in [127usize, 128, 129, 16_384] {
        // a long array inside another, with a class after it
        let v: Vec<V> = (0..n).map(|i| V::I(i as i32)).collect();
        let s = format!("class k{{a[]={{\"x\",{{{}}},2}};b=1;}};class l{{c=2;}};", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let k = C { parent: String::new(), props: vec![("a".into(), P::Arr(false, vec![V::S("x".into()), V::A(v), V::I(2)])), ("b".into(), P::V(V::I(1)))] };
        let l = C { parent: String::new(), props: vec![("c".into(), P::V(V::I(2)))] };
        let c = C { parent: String::new(), props: vec![("k".into(), P::C(k)), ("l".into(), P::C(l))] };
        cx.case("count", &format!("array of {n} inside an array"), || check(&s, &c));
    }
    {
        // deep classes and arrays
        let mut c = C::default();
        let mut s = String::new();
        for i in 0..60 {
            let x = C { parent: if i % 3 == 0 { "q".into() } else { String::new() }, props: vec![("z".into(), P::V(V::I(i))), ("w".into(), P::C(std::mem::take(&mut c))), ("y".into(), P::V(V::S("é".into())))] };
            s = format!("z={i};class w{}{{{s}}};y=\"é\";", "");
            c = x;
            if i % 3 == 0 {
                // parents are set by the enclosing text below
                c.parent = String::new();
            }
        }
        cx.case("deep", "60 classes inside each other", || check(&s, &c));
        let mut a = String::from("{}");
        let mut v = vec![];
        for i in 0..40 {
            a = format!("{{{i},{a},\"x\"}}");
            v = vec![V::I(i), V::A(v), V::S("x".into())];
        }
        let s = format!("a[]={a};");
        let c = C { parent: String::new(), props: vec![("a".into(), P::Arr(false, v))] };
        cx.case("deep", "40 arrays inside each other", || check(&s, &c));
    }
    while cx.time(0.9) {
        let mut src = String::new();
        let mut c = C::default();
        let n = cx.rng.n(8);
        let mut g = G { k: 0, budget: if cx.rng.one_in(8) { 400 } else { 30 } };
        let depth = cx.rng.n(7);
        class_body(&mut cx.rng, &mut g, depth, n, &mut src, &mut c);
        cx.case("config", &src.clone(), || check(&src, &c));
    }
}

fn one(key: &str, cx: &mut Cx, lit: &str, v: V) {
    // alone, with white space, in an array, in a nested array, beside others
    let forms: [(&str, String, P); 8] = [
        ("plain", format!("a={lit};"), P::V(v.clone())),
        ("spaced", format!("a = {lit} ;"), P::V(v.clone())),
        ("tabbed", format!("a =\t{lit}\n;"), P::V(v.clone())),
        ("array", format!("a[]={{{lit}}};"), P::Arr(false, vec![v.clone()])),
        ("spaced array", format!("a[] = {{ {lit} , {lit} }};"), P::Arr(false, vec![v.clone(), v.clone()])),
        ("appended", format!("a[] += {{{lit},}};"), P::Arr(true, vec![v.clone()])),
        ("nested", format!("a[]={{1,{{{lit} , {{ {lit}}}}},\"\"}};"), P::Arr(false, vec![V::I(1), V::A(vec![v.clone(), V::A(vec![v.clone()])]), V::S(String::new())])),
        ("class", format!("class b{{a={lit};}};"), P::C(C { parent: String::new(), props: vec![("a".into(), P::V(v.clone()))] })),
    ];
    for (f, src, p) in forms {
        let n = if f == "class" { "b" } else { "a" };
        let c = C { parent: String::new(), props: vec![(n.to_string(), p)] };
        cx.case(&format!("{key}:{f}"), &src, || check(&src, &c));
    }
}

pub fn run_r02(cx: &mut Cx) {
    cx.group("boundary literals in eight positions");
    for v in [0i64, 1, 9, 10, 255, 65536, 2147483646, 2147483647, -1, -9, -2147483647, -2147483648] {
        one("int", cx, &v.to_string(), V::I(v as i32));
    }
    for v in [2147483648i64, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, -2147483649, -9223372036854775807] {
        one("long", cx, &v.to_string(), V::L(v));
    }
    for s in ["0.0", "0.5", "1.0", "-1.0", "1.5", ".5", "-.25", "0.1", "3.14159265358979", "16777217.0", "2147483648.0", "123456789.0", "0.000001", "1e5", "1e-5", "1E+5", "1.5e3", "2.5E-3", "1e30", "3.4028235e38", "-1e30", "1.17549435e-38", "1e-45", "0e0", "99999999999999999999.0"] {
        let (l, v) = flt(s.to_string());
        one("float", cx, &l, v);
    }
    for t in ["", "\"", "\"\"", "a\"b", ",", "}", "{1,2}", ";", "// x", "/* x */", "\\", "a\\", "\\n", "#", "__EVAL(1)", "1.0", "é漢🙂", "class a {};", "%", "'", "  x  "] {
        one("string", cx, &quoted(t), V::S(t.to_string()));
    }
    // texts joined by \n
    for (l, w) in [("\"a\" \\n \"b\"", "a\nb"), ("\"a\"\\n\"\"\\n\"b\"", "a\n\nb"), ("\"a\\\" \\n \"b\"", "a\\\nb"), ("\"\"\"\" \\n \"\"\"\"", "\"\n\"")] {
        one("joined", cx, l, V::S(w.to_string()));
    }
    // a line joined by a backslash inside quotes has no line break
    one("continued", cx, "\"a\\\nb\"", V::S("ab".to_string()));
    cx.group("arithmetic");
    for (l, v) in [
        ("1+1", V::I(2)), ("(1.0)", V::I(1)), ("2147483647+1", V::L(2147483648)), ("0-2147483648", V::I(-2147483648)), ("0-2147483649", V::L(-2147483649)), ("1/2", V::F(0.5f32.to_bits())),
        ("1e30*1", V::F(1e30f32.to_bits())), ("1e30 - 0", V::F(1e30f32.to_bits())), ("0 - 1e30", V::F((-1e30f32).to_bits())), ("2^63", V::F(9223372036854775808f32.to_bits())), ("0-2^63", V::L(i64::MIN)), ("2^62", V::L(1 << 62)),
        ("(1+2)*3 - 4/2", V::I(7)), ("0x10 + 1", V::I(17)), ("1e-3 * 2", V::F(0.002f32.to_bits())), ("10 % 4", V::I(2)), ("0.1+0.2", V::F(0.3f32.to_bits())),
    ] {
        one("math", cx, l, v);
    }
    cx.group("texts that are not values");
    for src in [
        "a = __EVAL 5;", "a = __EVAL;", "a = __EVALx;", "a = __EVAL(;", "a = __EVAL();", "a = __EVAL);", "a = ;", "a = \"x;", "a = 1.;", "a = 0x;", "a = 1e;", "a = --1;", "a = - ;", "a = 99999999999999999999;", "a = -;", "a = (;", "a = 1 +;",
        "a[] = {1,,2};", "a[] = {1 2};", "a[] = {;", "a[] = 1;", "a[] += 1;", "a[] 5;", "a = {1};", "class a", "class a:b;", "class;", "delete;", "delete a", "a", "=", "}", "{", "class a { b = 1 };", "class a {", ";", "a = 0xFFFFFFFFFFFFFFFFFF;", "class a : { };", "a[] = { __EVAL(1) };", "a = ^;", "a = 2 ^ ;", "a = (1;", "a = 1);",
    ] {
        cx.case("refused", src, || {
            match binarize(src) {
                Ok(b) => Err(format!("accepted as {:?}", decode(&b))),
                Err(_) => Ok(()),
            }
        });
    }
    for src in ["a = 1e999999999;", "a = 5 % 0;", "a = 1/0;", "a = -(3);", "a = 0/0;", "a = 9^99999;"] {
        cx.case("robust", src, || {
            let _ = binarize(src);
            Ok(())
        });
    }
    cx.group("generated literals and texts");
    while cx.time(0.6) {
        if cx.rng.one_in(3) {
            let t = text(&mut cx.rng);
            one("string", cx, &quoted(&t), V::S(t));
        } else {
            let (l, v) = number(&mut cx.rng);
            one(if matches!(v, V::F(_)) { "float" } else { "int" }, cx, &l, v);
        }
    }
    cx.group("generated configs");
    while cx.time(0.85) {
        let mut src = String::new();
        let mut c = C::default();
        let mut g = G { k: 0, budget: 25 };
        class_body(&mut cx.rng, &mut g, 4, 6, &mut src, &mut c);
        cx.case("config", &src.clone(), || check(&src, &c));
        // a damaged one: no crash
        let mut ch: Vec<char> = src.chars().collect();
        if ch.is_empty() {
            continue;
        }
        for _ in 0..cx.rng.range(1, 3) {
            let i = cx.rng.n(ch.len());
            match cx.rng.n(3) {
                0 => {
                    ch.remove(i);
                }
                1 => {
                    let c = *cx.rng.pick(&['"', '{', '}', ';', '=', '\\', '(', ')', ',', '-', '1', 'e', '.', ' ', '\n', ':', '[', ']', '_', 'é']);
                    ch.insert(i, c);
                }
                _ => {
                    let j = cx.rng.n(ch.len());
                    ch.swap(i, j);
                }
            }
            if ch.is_empty() {
                break;
            }
        }
        let d: String = ch.into_iter().collect();
        cx.case("robust", &d.clone(), || {
            let _ = binarize(&d);
            Ok(())
        });
    }
}
