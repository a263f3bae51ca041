//! E01, V01, X01, W01 (first half): small text functions of hemtt-common against independent references.
use crate::*;
use hemtt_common::math::eval;
use hemtt_common::prefix::Prefix;
use hemtt_common::strip::StripInsensitive;
use hemtt_common::version::Version;
use std::cmp::Ordering as O;

// ---------------------------------------------------------------- E01
/// Reference: precedence climbing over the characters, None for anything that is not an expression.
struct P<'a> {
    s: &'a [char],
    i: usize,
    /// the last token was an operator or an opening parenthesis
    open: bool,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn primary(&mut self) -> Option<f64> {
        self.ws();
        let c = *self.s.get(self.i)?;
        if c == '(' {
            self.i += 1;
            self.open = true;
            let v = self.expr(0)?;
            self.ws();
            if self.s.get(self.i) != Some(&')') {
                return None;
            }
            self.i += 1;
            self.open = false;
            return Some(v);
        }
        let from = self.i;
        if c == '-' && self.open {
            self.i += 1;
        }
        while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == '.') {
            self.i += 1;
        }
        let t: String = self.s[from..self.i].iter().collect();
        self.open = false;
        if !t.chars().any(|c| c.is_ascii_digit()) || t.chars().filter(|c| *c == '.').count() > 1 {
            return None;
        }
        t.parse::<f64>().ok()
    }
    fn expr(&mut self, min: u8) -> Option<f64> {
        let mut l = self.primary()?;
        loop {
            self.ws();
            let Some(&c) = self.s.get(self.i) else { return Some(l) };
            let p = match c {
                '+' | '-' => 1,
                '*' | '/' | '%' => 2,
                '^' => 3,
                ')' => return Some(l),
                _ => return None,
            };
            if p < min {
                return Some(l);
            }
            self.i += 1;
            self.open = true;
            let r = self.expr(if c == '^' { p } else { p + 1 })?;
            l = match c {
                '+' => l + r,
                '-' => l - r,
                '*' => l * r,
                '/' => l / r,
                '%' => l % r,
                _ => l.powf(r),
            };
        }
    }
}
pub fn reference(s: &str) -> Option<f64> {
    let v: Vec<char> = s.chars().collect();
    let mut p = P { s: &v, i: 0, open: false };
    let r = p.expr(0)?;
    p.ws();
    if p.i == v.len() { Some(r) } else { None }
}
fn same(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        _ => false,
    }
}
fn ecase(cx: &mut Cx, s: &str) {
    cx.case("eval", s, || {
        let (g, w) = (eval(s), reference(s));
        ck!(same(g, w), "eval gives {g:?}, the expression means {w:?}");
        Ok(())
    });
}
fn etree(r: &mut Rng, depth: usize, out: &mut String) {
    let sp = |r: &mut Rng, o: &mut String| for _ in 0..(if r.one_in(4) { r.n(3) } else { 0 }) { o.push(' ') };
    sp(r, out);
    match if depth == 0 { 0 } else { r.n(5) } {
        0 | 1 => {
            let after = out.trim_end().chars().last();
            if matches!(after, Some('+' | '-' | '*' | '/' | '%' | '^' | '(')) && r.one_in(3) {
                out.push('-');
            }
            match r.n(5) {
                0 => out.push_str(&format!("{}", r.n(10))),
                1 => out.push_str(&format!("{}.{}", r.n(100), r.n(1000))),
                2 => out.push_str(&format!(".{}", r.n(100))),
                3 => out.push_str(&format!("{}.", r.n(100))),
                _ => out.push_str(&format!("{}", r.u32x())),
            }
        }
        2 => {
            out.push('(');
            etree(r, depth - 1, out);
            sp(r, out);
            out.push(')');
        }
        _ => {
            let n = r.range(1, 4);
            etree(r, depth - 1, out);
            for _ in 0..n {
                sp(r, out);
                out.push(*r.pick(&['+', '-', '*', '/', '%', '^', '-', '^']));
                etree(r, depth - 1, out);
            }
        }
    }
    sp(r, out);
}
pub fn run_e01(cx: &mut Cx) {
    cx.group("all short strings over operators, digits and parentheses");
    let al: Vec<char> = "12.+-*^() ".chars().collect();
    let mut cur: Vec<String> = vec![String::new()];
    for _ in 0..5 {
        let mut next = Vec::with_capacity(cur.len() * al.len());
        for s in &cur {
            for c in &al {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        for s in &next {
            ecase(cx, s);
        }
        cur = next;
    }
    cx.group("every pair and triple of operators");
    for a in "+-*/%^".chars() {
        for b in "+-*/%^".chars() {
            for c in "+-*/%^".chars() {
                for t in [
                    format!("7{a}3{b}2"), format!("7{a}3{b}2{c}5"), format!("(7{a}3){b}2{c}5"), format!("7{a}(3{b}2){c}5"), format!("7{a}3{b}(2{c}5)"),
                    format!("7{a}(3{b}2{c}5)"), format!("(7{a}3{b}2){c}5"), format!("7{a}-3{b}-2{c}-5"), format!("((7{a}3){b}(2)){c}(-5)"),
                ] {
                    ecase(cx, &t);
                }
            }
        }
    }
    cx.group("other characters and broken texts");
    for t in ["", " ", "a", "1a", "1 a", "0x10", "1e5", "1,5", "1+\t2", "1\n", "é", "1²", "--1", "-1", "- 1", "+1", "(", ")", "()", "()1", "1()", ")(", "1)(2", "(1)(2)", "2(3)", "(2)3", "1..2", "1.2.3", ".", "-.", "1+-", "1+-(2)", "1+--2", "1- -2", "1+- 2", "1^^2", "nan", "inf", "1==1", "１"] {
        ecase(cx, t);
    }
    cx.group("generated expressions");
    while cx.time(0.75) {
        let mut s = String::new();
        let d = cx.rng.range(1, 5);
        etree(&mut cx.rng, d, &mut s);
        if s.len() < 2000 {
            ecase(cx, &s);
        }
    }
    cx.group("generated expressions with one character changed");
    let ins: Vec<char> = "+-*/%^().0123456789 ae&_é".chars().collect();
    while cx.time(1.0) {
        let mut s = String::new();
        let d = cx.rng.range(1, 3);
        etree(&mut cx.rng, d, &mut s);
        let mut v: Vec<char> = s.chars().collect();
        let i = cx.rng.n(v.len() + 1);
        match cx.rng.n(3) {
            0 if i < v.len() => { v.remove(i); }
            1 if i < v.len() => v[i] = *cx.rng.pick(&ins),
            _ => v.insert(i, *cx.rng.pick(&ins)),
        }
        ecase(cx, &v.iter().collect::<String>());
    }
}

// ---------------------------------------------------------------- V01
#[derive(Clone, Debug)]
struct V { n: [u32; 3], b: Option<u32>, h: Option<String> }
impl V {
    fn make(&self) -> Version {
        let mut v = Version::new(self.n[0], self.n[1], self.n[2], self.b);
        if let Some(h) = &self.h {
            v.set_build(h.clone());
        }
        v
    }
    fn text(&self) -> String {
        let mut s = format!("{}.{}.{}", self.n[0], self.n[1], self.n[2]);
        if let Some(b) = self.b { s.push_str(&format!(".{b}")); }
        if let Some(h) = &self.h { s.push('-'); s.push_str(h); }
        s
    }
}
fn num(r: &mut Rng) -> u32 {
    match r.n(6) { 0 => 0, 1 => u32::MAX, 2 => r.u32x(), 3 => *r.pick(&[1, 2, 9, 10, 11, 99, 100, 255, 256, 65535, 65536]), _ => r.n(4) as u32 }
}
fn ver(r: &mut Rng) -> V {
    let h = if r.one_in(3) { Some((0..r.range(1, 10)).map(|_| *r.pick(&['a', 'f', '0', '9', 'x', 'Z', '.', '_'])).collect()) } else { None };
    V { n: [num(r), num(r), num(r)], b: if r.b() { Some(num(r)) } else { None }, h }
}
fn order(a: &V, b: &V) -> O {
    for i in 0..3 {
        if a.n[i] != b.n[i] {
            return if a.n[i] < b.n[i] { O::Less } else { O::Greater };
        }
    }
    match (a.b, b.b) {
        (None, None) => O::Equal,
        (None, Some(_)) => O::Less,
        (Some(_), None) => O::Greater,
        (Some(x), Some(y)) => if x < y { O::Less } else if x > y { O::Greater } else { O::Equal },
    }
}
pub fn run_v01(cx: &mut Cx) {
    cx.group("ordering: all pairs of versions over small and extreme components");
    let ns = [0u32, 1, 9, 10, u32::MAX];
    let mut vs = vec![];
    for a in ns { for b in ns { for c in [0u32, 1, 10, u32::MAX] { for d in [None, Some(0), Some(1), Some(10), Some(u32::MAX)] {
        vs.push(V { n: [a, b, c], b: d, h: None });
    } } } }
    let n = vs.len();
    let cmp = |cx: &mut Cx, a: &V, b: &V| cx.case("order", &format!("{} vs {}", a.text(), b.text()), || {
        let (x, y) = (a.make(), b.make());
        let w = order(a, b);
        eq!(x.partial_cmp(&y), Some(w), "ordering");
        eq!(x < y, w == O::Less, "<");
        eq!(x > y, w == O::Greater, ">");
        eq!(x <= y, w != O::Greater, "<=");
        eq!(x >= y, w != O::Less, ">=");
        Ok(())
    });
    for i in 0..n { for j in 0..n { if (i * 7 + j * 13) % 5 == 0 { cmp(cx, &vs[i], &vs[j]); } } }
    cx.group("ordering: generated");
    while cx.time(0.3) {
        let a = ver(&mut cx.rng);
        let mut b = if cx.rng.b() { a.clone() } else { ver(&mut cx.rng) };
        if cx.rng.b() { let i = cx.rng.n(3); b.n[i] = num(&mut cx.rng); }
        if cx.rng.b() { b.b = ver(&mut cx.rng).b; }
        if cx.rng.b() { b.h = ver(&mut cx.rng).h; }
        cmp(cx, &a, &b);
    }
    cx.group("text round trip");
    while cx.time(0.55) {
        let a = ver(&mut cx.rng);
        cx.case("text", &a.text(), || {
            let v = a.make();
            eq!(v.to_string(), a.text(), "text of the version");
            let back = Version::try_from(a.text().as_str()).map_err(|e| format!("not parsed: {e}"))?;
            eq!(back, v, "parsed version");
            eq!([back.major(), back.minor(), back.patch()], a.n, "components");
            eq!(back.build(), a.b, "build number");
            let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            eq!(j, format!("\"{}\"", a.text()), "serialized text");
            let back: Version = serde_json::from_str(&j).map_err(|e| format!("not deserialized: {e}"))?;
            eq!(back, v, "deserialized version");
            Ok(())
        });
    }
    cx.group("rejected texts");
    let bad = |cx: &mut Cx, t: &str| cx.case("reject", t, || {
        ck!(Version::try_from(t).is_err(), "accepted");
        Ok(())
    });
    for t in ["", ".", "..", "...", "1", "1.", "1.2", "1.2.", "1..3", ".2.3", "1.2.3.", "a.b.c", "1.2.c", "1.b.3", "a.2.3", "1.2.3.d", "-", "-abc", "1-abc", "1.2-abc", "1.2.-abc", "4294967296.0.0", "0.4294967296.0", "0.0.4294967296", "0.0.0.4294967296", " 1.2.3", "1.2.3 ", "1 .2.3", "1.2.3.4 ", "1,2,3", "v1.2.3", "0x1.2.3", "1.2.٣", "é"] {
        bad(cx, t);
    }
    while cx.time(0.7) {
        // replace one component by something that is not a number, or drop it
        let a = ver(&mut cx.rng);
        let mut parts: Vec<String> = a.n.iter().chain(a.b.iter()).map(|n| n.to_string()).collect();
        let i = cx.rng.n(parts.len());
        let drop = cx.rng.one_in(3) && a.b.is_none();
        if drop { parts.remove(i); } else { parts[i] = cx.rng.pick(&["", "x", "1x", "x1", " 1", "1 ", "4294967296", "99999999999", "1_0", "é", "1,0", "0x1"]).to_string(); }
        let mut t = parts.join(".");
        if let Some(h) = &a.h { t.push('-'); t.push_str(h); }
        bad(cx, &t);
    }
    cx.group("script_version files");
    while cx.time(1.0) {
        let a = ver(&mut cx.rng);
        let r = &mut cx.rng;
        let mut ls = vec![];
        let miss = if r.one_in(4) { r.n(3) } else { 9 };
        let junk = if r.one_in(6) { r.n(3) } else { 9 };
        let names = ["MAJOR", "MINOR", if r.b() { "PATCH" } else { "PATCHLVL" }];
        for i in 0..3 {
            if i != miss {
                let v = if i == junk { r.pick(&["x", "4294967296", "1.0", "-1"]).to_string() } else { a.n[i].to_string() };
                ls.push(format!("#define {} {v}", names[i]));
            }
        }
        if let Some(b) = a.b { ls.push(format!("#define BUILD {b}")); }
        r.shuffle(&mut ls);
        let mut t = String::new();
        for l in ls {
            for _ in 0..r.n(3) { t.push_str(r.pick(&["\n", "// x\n", "// #define MAJOR 77\n", "#define OTHER 5\n", "\r\n", "#define XMINOR 8\n", "#define MAINPREFIX z\n"])); }
            for _ in 0..r.n(3) { t.push(' '); }
            t.push_str(&l);
            if r.one_in(3) { t.push_str(r.pick(&[" // comment", " // 5", " ", " //MAJOR 6"])); }
            t.push_str(if r.b() { "\n" } else { "\r\n" });
        }
        cx.case("script-version", &t, || {
            match Version::try_from_script_version(&t) {
                Ok(v) => {
                    ck!(miss == 9 && junk == 9, "accepted although a component is missing or not a number: {v}");
                    eq!(v, Version::new(a.n[0], a.n[1], a.n[2], a.b), "version of the file");
                }
                Err(e) => ck!(miss != 9 || junk != 9, "rejected: {e}"),
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- X01
pub fn run_x01(cx: &mut Cx) {
    let comp = |r: &mut Rng| -> String {
        let pool: Vec<char> = "abzXY019_ -.$éß漢".chars().collect();
        let mut s: String = (0..r.range(1, 8)).map(|_| *r.pick(&pool)).collect();
        s = s.trim().to_string();
        if s.is_empty() { "z".into() } else { s }
    };
    let ws = |r: &mut Rng| -> String { (0..if r.one_in(3) { r.n(3) } else { 0 }).map(|_| *r.pick(&[' ', '\t', '\u{a0}', '\u{3000}'])).collect() };
    cx.group("well-formed prefix files");
    while cx.time(0.5) {
        let r = &mut cx.rng;
        let parts: Vec<String> = (0..r.range(1, 5)).map(|_| comp(r)).collect();
        let path = parts.join("\\");
        let nl = if r.b() { "\n" } else { "\r\n" };
        let t = if r.one_in(3) {
            format!("{}{}{path}{}{}", ws(r), if r.one_in(4) { nl } else { "" }, ws(r), if r.b() { nl } else { "" })
        } else {
            let mut ls = vec![];
            for _ in 0..r.n(3) { ls.push(r.pick(&["version=1", "key = value", "prefixx=a\\b", "x prefix=q", "=", "=prefix", "product=prefix=1", "junk", "", "é=ü", "aprefix=n"]).to_string()); }
            let k: String = "prefix".chars().map(|c| if r.one_in(3) { c.to_ascii_uppercase() } else { c }).collect();
            ls.push(format!("{}{k}{}={}{path}{}", ws(r), ws(r), ws(r), ws(r)));
            for _ in 0..r.n(3) { ls.push(r.pick(&["version=1", "prefix=other\\one", "junk", "", "a=b=c"]).to_string()); }
            let mut t = ls.join(nl);
            if r.b() { t.push_str(nl); }
            t
        };
        cx.case("prefix", &t, || {
            let p = Prefix::new(&t).map_err(|e| format!("rejected: {e}"))?;
            eq!(p.to_string(), path, "printed prefix");
            eq!(p.main_prefix(), parts[0], "main prefix");
            eq!(p.mod_prefix(), parts.get(1).map(String::as_str), "mod prefix");
            eq!(p.as_pathbuf(), std::path::PathBuf::from(parts.join("/")), "path");
            let again = Prefix::new(&p.to_string());
            if !path.contains('=') { eq!(again, Ok(p.clone()), "printed and parsed again"); }
            eq!(p.into_inner(), parts, "components");
            Ok(())
        });
    }
    cx.group("files to be rejected");
    let bad = |cx: &mut Cx, t: &str| cx.case("reject", t, || {
        let r = Prefix::new(t);
        ck!(r.is_err(), "accepted as {r:?}");
        Ok(())
    });
    for t in ["", " ", "\n", "\r\n\t ", "\\z\\a", " \\z", "\\", "a/b", "/", "prefix=a/b", "prefix=\\z\\a", "prefix = \\z", "PREFIX=\\z\nversion=1", "version=1", "version=1\nkey=z", "a\nb", "prefix\nversion=1", "prefixx=1", "pre fix=z", "key=\\prefix", "url=http://x\nprefix=z\\a", "x=1\n\\z\\a", "=z"] {
        bad(cx, t);
    }
    while cx.time(0.75) {
        let r = &mut cx.rng;
        let path = (0..r.range(1, 4)).map(|_| comp(r)).collect::<Vec<_>>().join("\\");
        let t = match r.n(5) {
            0 => format!("{}\\{path}", ws(r)),
            1 => format!("prefix{}={}\\{path}", ws(r), ws(r)),
            2 => { let mut p: Vec<char> = path.chars().collect(); let i = r.n(p.len() + 1); p.insert(i, '/'); format!("{}{}", if r.b() { "prefix=" } else { "" }, p.iter().collect::<String>()) }
            3 => format!("version={path}\nprefi={path}\n"),
            _ => format!("{path}\n{path}"),
        };
        bad(cx, &t);
    }
    cx.group("arbitrary texts");
    let pool: Vec<char> = "prefix=PREFIX=\\/\n\r \tz=éİß".chars().collect();
    while cx.time(1.0) {
        let n = cx.rng.n(24);
        let t: String = (0..n).map(|_| *cx.rng.pick(&pool)).collect();
        cx.case("any", &t, || {
            if let Ok(p) = Prefix::new(&t) {
                let text = p.to_string();
                ck!(!p.to_string().starts_with('\\') && !p.to_string().contains('/'), "accepted as {p}");
                ck!(t.contains(&p.to_string()), "{p} is not in the file");
                let _ = (p.main_prefix().len(), p.mod_prefix().map(str::len), p.as_pathbuf());
                eq!(text.split('\\').map(ToString::to_string).collect::<Vec<_>>(), p.clone().into_inner(), "components");
                ck!(p.to_string().trim() == p.to_string(), "white space around {p:?}");
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- W01
fn strip_ref<'a>(s: &'a str, p: &str) -> Option<&'a str> {
    let (a, b): (Vec<(usize, char)>, Vec<char>) = (s.char_indices().collect(), p.chars().collect());
    if a.len() < b.len() { return None; }
    for i in 0..b.len() {
        if !a[i].1.eq_ignore_ascii_case(&b[i]) { return None; }
    }
    Some(a.get(b.len()).map_or("", |(o, _)| &s[*o..]))
}
pub fn w01_strip(cx: &mut Cx, until: f64) {
    cx.group("prefix stripping: all short texts and prefixes");
    let al: Vec<char> = "aAb\u{e9}\u{c9}\u{212a}kK\u{1f600}".chars().collect();
    let mut ts: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..3 {
        let to = ts.len();
        for i in from..to { for c in &al { let mut t = ts[i].clone(); t.push(*c); ts.push(t); } }
        from = to;
    }
    let one = |cx: &mut Cx, s: &str, p: &str| cx.case("strip", &format!("{s:?} without {p:?}"), || {
        eq!(s.strip_prefix_insensitive(p), strip_ref(s, p), "rest");
        let owned = s.to_string();
        eq!(owned.strip_prefix_insensitive(p), strip_ref(s, p), "rest of the String");
        Ok(())
    });
    let ps: Vec<String> = ts.iter().filter(|t| t.chars().count() <= 2).cloned().collect();
    for s in &ts { for p in &ps { one(cx, s, p); } }
    cx.group("prefix stripping: generated");
    while cx.time(until) {
        let s: String = (0..cx.rng.n(12)).map(|_| *cx.rng.pick(&al)).collect();
        let k = cx.rng.n(s.chars().count() + 2);
        let mut p: String = s.chars().take(k).map(|c| if cx.rng.b() { c.to_ascii_uppercase() } else { c }).collect();
        if cx.rng.one_in(4) { p.push(*cx.rng.pick(&al)); }
        one(cx, &s, &p);
    }
}
