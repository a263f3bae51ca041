//! P01, P02, P03, P04: the preprocessor on the real code.
use crate::*;
use hemtt_preprocessor::Processor;
use hemtt_workspace::reporting::Processed;
use hemtt_workspace::WorkspacePath;
use std::collections::BTreeMap;

pub fn ws(files: &[(String, String)]) -> WorkspacePath {
    let w = hemtt_workspace::Workspace::builder()
        .memory()
        .finish(None, false, &hemtt_common::config::PDriveOption::Disallow)
        .unwrap();
    for (n, c) in files {
        w.join(n).unwrap().create_file().unwrap().write_all(c.as_bytes()).unwrap();
    }
    w
}

/// Preprocess the first file.
pub fn pre(files: &[(String, String)]) -> Result<Processed, String> {
    let w = ws(files);
    let root = w.join(&files[0].0).unwrap();
    Processor::run(&root).map_err(|(_, e)| match e {
        hemtt_preprocessor::Error::Code(c) => c.ident().to_string(),
        e => format!("{e:?}"),
    })
}

fn desc(files: &[(String, String)]) -> String {
    let mut s = String::new();
    for (n, c) in files {
        s.push_str(&format!("[{n}]\n{c}"));
        if !c.ends_with('\n') {
            s.push_str("<eof>\n");
        }
    }
    s
}

// ------------------------------------------------------------------ P01
#[derive(Clone, Debug)]
enum L {
    Text(u32),
    Word(usize),
    Def(usize, Option<u32>),
    Undef(usize),
    If(String, Option<(&'static str, String)>),
    Ifdef(usize, bool),
    Else,
    Endif,
    Include(usize),
    Bad(&'static str),
}

#[derive(Clone, Copy)]
struct Frame {
    cond: Option<bool>,
    els: bool,
}

struct Ref<'a> {
    files: &'a [Vec<L>],
    defs: BTreeMap<usize, Option<u32>>,
    frames: Vec<Frame>,
    out: Vec<String>,
    /// an `#else` or `#endif` without a condition was met: an error is also fine
    stray: bool,
}
impl Ref<'_> {
    fn active(&self) -> bool {
        self.frames.iter().all(|f| f.cond.is_some_and(|c| c != f.els))
    }
    fn value(&self, w: &str) -> Result<String, ()> {
        if let Some(k) = w.strip_prefix('D').and_then(|k| k.parse::<usize>().ok()) {
            match self.defs.get(&k) {
                Some(Some(v)) => return Ok(v.to_string()),
                Some(None) => return Err(()),
                None => {}
            }
        }
        Ok(w.to_string())
    }
    fn file(&mut self, i: usize) -> Result<(), ()> {
        for l in self.files[i].clone() {
            let act = self.active();
            match l {
                L::Text(n) if act => self.out.push(format!("t{n}")),
                L::Word(k) if act => match self.defs.get(&k) {
                    Some(Some(v)) => self.out.push(v.to_string()),
                    Some(None) => return Err(()),
                    None => self.out.push(format!("D{k}")),
                },
                L::Def(k, v) if act => {
                    self.defs.insert(k, v);
                }
                L::Undef(k) if act => {
                    self.defs.remove(&k);
                }
                L::If(..) | L::Ifdef(..) if !act => self.frames.push(Frame { cond: None, els: false }),
                L::If(a, None) => {
                    let k = a[1..].parse::<usize>().map_err(|_| ())?;
                    match self.defs.get(&k) {
                        Some(Some(v)) => self.frames.push(Frame { cond: Some(*v == 1), els: false }),
                        _ => return Err(()),
                    }
                }
                L::If(a, Some((op, b))) => {
                    let (a, b) = (self.value(&a)?, self.value(&b)?);
                    let num = || -> Result<(f64, f64), ()> { Ok((a.parse().map_err(|_| ())?, b.parse().map_err(|_| ())?)) };
                    let c = match op {
                        "==" => a == b,
                        "!=" => a != b,
                        ">" => num()?.0 > num()?.1,
                        ">=" => num()?.0 >= num()?.1,
                        "<" => num()?.0 < num()?.1,
                        "<=" => num()?.0 <= num()?.1,
                        _ => return Err(()),
                    };
                    self.frames.push(Frame { cond: Some(c), els: false });
                }
                L::Ifdef(k, want) => {
                    let c = self.defs.contains_key(&k) == want;
                    self.frames.push(Frame { cond: Some(c), els: false });
                }
                L::Else => match self.frames.last_mut() {
                    None => self.stray = true,
                    Some(f) if f.els => return Err(()),
                    Some(f) => f.els = true,
                },
                L::Endif => {
                    if self.frames.pop().is_none() {
                        self.stray = true;
                    }
                }
                L::Include(k) if act => {
                    if k >= self.files.len() {
                        return Err(());
                    }
                    self.file(k)?;
                }
                L::Bad(_) if act => return Err(()),
                _ => {}
            }
        }
        Ok(())
    }
}

fn p01_text(rng: &mut Rng, ls: &[L], plain: bool) -> String {
    let mut s = String::new();
    for l in ls {
        if !plain {
            match rng.n(8) {
                0 => s.push_str("  "),
                1 => s.push('\t'),
                2 => s.push('\n'),
                _ => {}
            }
        }
        match l {
            L::Text(n) => s.push_str(&format!("t{n}")),
            L::Word(k) => s.push_str(&format!("D{k}")),
            L::Def(k, None) => s.push_str(&format!("#define D{k}")),
            L::Def(k, Some(v)) => s.push_str(&format!("#define D{k} {v}")),
            L::Undef(k) => s.push_str(&format!("#undef D{k}")),
            L::If(a, None) => s.push_str(&format!("#if {a}")),
            L::If(a, Some((op, b))) => s.push_str(&format!("#if {a} {op} {b}")),
            L::Ifdef(k, true) => s.push_str(&format!("#ifdef D{k}")),
            L::Ifdef(k, false) => s.push_str(&format!("#ifndef D{k}")),
            L::Else => s.push_str("#else"),
            L::Endif => s.push_str("#endif"),
            L::Include(k) => s.push_str(&format!("#include \"f{k}.hpp\"")),
            L::Bad(t) => s.push_str(t),
        }
        if !plain && !matches!(l, L::If(_, None) | L::Def(..) | L::Bad(_) | L::Text(_) | L::Word(_)) {
            match rng.n(10) {
                0 => s.push_str(" // x"),
                1 => s.push_str(" /* y */"),
                _ => {}
            }
        }
        s.push_str(if !plain && rng.one_in(9) { "\r\n" } else { "\n" });
    }
    s
}

fn p01_check(cx: &mut Cx, key: &str, files: Vec<Vec<L>>, plain: bool) {
    let texts: Vec<(String, String)> =
        files.iter().enumerate().map(|(i, l)| (format!("f{i}.hpp"), p01_text(&mut cx.rng, l, plain))).collect();
    let d = desc(&texts);
    cx.case(key, &d, || {
        let mut r = Ref { files: &files, defs: BTreeMap::new(), frames: vec![], out: vec![], stray: false };
        let mut exp = r.file(0);
        if !r.frames.is_empty() {
            exp = Err(());
        }
        let got = pre(&texts);
        match (exp, got) {
            (Ok(()), Ok(p)) => {
                let w: Vec<String> = p.as_str().split_whitespace().map(str::to_string).collect();
                eq!(w, r.out, "text in the output");
            }
            (Ok(()), Err(e)) => ck!(r.stray, "error {e} for a well-formed file, expected {:?}", r.out),
            (Err(()), Ok(p)) => return Err(format!("an error was expected, output {:?}", p.as_str())),
            (Err(()), Err(_)) => {}
        }
        Ok(())
    });
}

fn rand_cond(rng: &mut Rng) -> L {
    match rng.n(6) {
        0 | 1 => L::Ifdef(rng.n(4), rng.b()),
        2 => L::If(format!("D{}", rng.n(4)), None),
        _ => {
            let o = |rng: &mut Rng| if rng.b() { format!("D{}", rng.n(4)) } else { (*rng.pick(&["0", "1", "2", "10", "9", "1.0", "2.0", "0.5", "10.0", "9.5"])).to_string() };
            let op = *rng.pick(&["==", "!=", "<", ">", "<=", ">=", "=="]);
            let (a, b) = (o(rng), o(rng));
            L::If(a, Some((op, b)))
        }
    }
}

fn p01_gen(rng: &mut Rng, n: usize, depth: usize, out: &mut Vec<L>, next: &mut u32, wild: bool) {
    for _ in 0..n {
        match rng.n(14) {
            0..=3 => {
                *next += 1;
                out.push(L::Text(*next));
            }
            4 => out.push(L::Def(rng.n(4), Some(*rng.pick(&[0, 1, 1, 2, 10])))),
            5 => out.push(if rng.one_in(4) { L::Def(rng.n(4), None) } else { L::Undef(rng.n(4)) }),
            6 => out.push(L::Include(if rng.one_in(30) { 9 } else { rng.range(1, 2) })),
            7 => out.push(if rng.one_in(8) { L::Bad(*rng.pick(&["#nonsense", "#include <none.hpp>", "#define", "#pragma hemtt nothing"])) } else { L::Word(rng.n(4)) }),
            8 if wild => out.push(if rng.b() { L::Else } else { L::Endif }),
            _ if depth > 0 => {
                out.push(rand_cond(rng));
                let k = rng.n(4);
                p01_gen(rng, k, depth - 1, out, next, wild);
                if rng.b() {
                    out.push(L::Else);
                    let k = rng.n(4);
                    p01_gen(rng, k, depth - 1, out, next, wild);
                }
                if wild && rng.one_in(8) {
                    out.push(L::Else);
                }
                if !(wild && rng.one_in(12)) {
                    out.push(L::Endif);
                }
            }
            _ => {}
        }
    }
}

pub fn run_p01(cx: &mut Cx) {
    cx.group("every sequence of conditionals up to 5 lines");
    let alphabet = [L::Ifdef(0, true), L::Ifdef(1, true), L::Else, L::Endif, L::Text(0)];
    for len in 0..=5usize {
        let mut ix = vec![0usize; len];
        'seq: loop {
            let mut f = vec![L::Def(0, None)];
            for (i, k) in ix.iter().enumerate() {
                f.push(match &alphabet[*k] {
                    L::Text(_) => L::Text(i as u32),
                    l => l.clone(),
                });
            }
            f.push(L::Text(99));
            p01_check(cx, "P01:branches", vec![f], true);
            let mut i = 0;
            loop {
                if i == len {
                    break 'seq;
                }
                ix[i] += 1;
                if ix[i] < alphabet.len() {
                    break;
                }
                ix[i] = 0;
                i += 1;
            }
        }
    }
    cx.group("nested else");
    // #if .. #else <nested> #else
    for (a, b) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        for inner_else in [false, true] {
            let mut f = vec![L::Def(0, None), L::Ifdef(a, true), L::Text(1), L::Else, L::Ifdef(b, true), L::Text(2)];
            if inner_else {
                f.push(L::Else);
                f.push(L::Text(3));
            }
            f.extend([L::Endif, L::Text(4), L::Else, L::Text(5), L::Endif, L::Text(6)]);
            p01_check(cx, "P01:branches", vec![f], true);
        }
    }
    cx.group("deep nesting");
    for _ in 0..60 {
        let n = cx.rng.range(20, 120);
        let mut f = vec![L::Def(0, Some(1))];
        let mut els = vec![];
        for i in 0..n {
            let c = if cx.rng.n(12) > 0 { L::Ifdef(0, true) } else { L::Ifdef(0, false) };
            f.push(c);
            f.push(L::Text(i as u32));
            els.push(cx.rng.n(3));
        }
        for i in (0..n).rev() {
            f.push(L::Text(1000 + i as u32));
            if els[i] > 0 {
                f.push(L::Else);
                f.push(L::Text(2000 + i as u32));
            }
            f.push(L::Endif);
        }
        p01_check(cx, "P01:branches", vec![f], true);
    }
    cx.group("unfinished directives");
    for t in ["#if", "#if ", "#if D0", "#if D0 ", "#if D0 ==", "#if D0 == ", "#if D0 == 1", "#ifdef", "#ifdef ", "#ifdef D0", "#ifndef", "#else", "#endif", "#define", "#define X", "#define X(", "#define X(a", "#define X(a,", "#undef", "#include", "#include ", "#include \"", "#include \"f", "#include <", "#", "# ", "#pragma", "#pragma hemtt", "#pragma hemtt suppress", "#pragma hemtt flag"] {
        for prefix in ["", "#define D0 1\n", "#define D0\n", "#define D0 1\n#if D0 == 1\n", "#define D0 1\n#if D0 == 2\n"] {
            for suffix in ["", "\n", " \n", "\n#endif\n"] {
                // as a line, and as the body of a macro
                let a = format!("{prefix}{t}{suffix}");
                let b = format!("{prefix}#define M {t}{suffix}\nM\n");
                let c = format!("{prefix}#define F(x) {t}{suffix}\nF(1)\n");
                for s in [a, b, c] {
                    let f = vec![("f0.hpp".to_string(), s)];
                    cx.case("P01:crash", &desc(&f), || {
                        let _ = pre(&f);
                        Ok(())
                    });
                }
            }
        }
    }
    cx.group("conditionals in a macro body");
    while cx.time(0.3) {
        let (mut next, mut body) = (0, vec![]);
        let (n, d, wild) = (cx.rng.range(2, 8), cx.rng.range(1, 3), cx.rng.one_in(4));
        p01_gen(&mut cx.rng, n, d, &mut body, &mut next, wild);
        body.retain(|l| matches!(l, L::Text(_) | L::Word(_) | L::If(..) | L::Ifdef(..) | L::Else | L::Endif));
        let mut defs = vec![];
        for k in 0..4 {
            if cx.rng.b() {
                defs.push(L::Def(k, if cx.rng.one_in(4) { None } else { Some(*cx.rng.pick(&[0, 1, 1, 2, 10])) }));
            }
        }
        let function = cx.rng.b();
        let mut text = p01_text(&mut cx.rng, &defs, true);
        text.push_str(if function { "#define M(x) " } else { "#define M " });
        for l in &body {
            let line = p01_text(&mut cx.rng, std::slice::from_ref(l), true);
            let line = match l {
                // the parameter
                L::Text(n) if function && n % 3 == 0 => "x",
                _ => line.trim_end(),
            };
            text.push_str(&format!("\\\n{line} "));
        }
        text.push_str(if function { "\nM(ARG)\n" } else { "\nM\n" });
        defs.extend(body);
        let files = vec![("f0.hpp".to_string(), text)];
        let lines = vec![defs];
        cx.case("P01:macro-body", &desc(&files), || {
            let mut r = Ref { files: &lines, defs: BTreeMap::new(), frames: vec![], out: vec![], stray: false };
            let exp = r.file(0);
            let got = pre(&files);
            if exp.is_err() || !r.frames.is_empty() {
                ck!(got.is_err(), "an error was expected");
                return Ok(());
            }
            let want: Vec<String> = r.out.iter().map(|t| match t.strip_prefix('t').and_then(|n| n.parse::<u32>().ok()) {
                Some(n) if function && n % 3 == 0 => "ARG".to_string(),
                _ => t.clone(),
            }).collect();
            match got {
                Ok(p) => {
                    let w: Vec<String> = p.as_str().split_whitespace().map(str::to_string).collect();
                    eq!(w, want, "text in the output");
                }
                Err(e) => ck!(r.stray, "error {e} for a well-formed file, expected {want:?}"),
            }
            Ok(())
        });
    }
    cx.group("generated files");
    let mut k = 0;
    while cx.time(1.0) {
        k += 1;
        let wild = k % 3 == 0;
        let mut next = 0;
        let mut files = vec![];
        for i in 0..3 {
            let mut f = vec![];
            let n = cx.rng.range(1, if i == 0 { 8 } else { 3 });
            let d = cx.rng.range(0, if i == 0 { 4 } else { 2 });
            p01_gen(&mut cx.rng, n, d, &mut f, &mut next, wild);
            if i > 0 {
                f.retain(|l| !matches!(l, L::Include(k) if *k <= i || *k == 9));
            }
            files.push(f);
        }
        p01_check(cx, "P01:branches", files, false);
    }
}

// ------------------------------------------------------------------ P04
#[derive(Clone, Debug)]
enum G {
    /// suppress(true)/flag(false), scope 0 line 1 file 2 config, written out?
    Pragma(bool, usize, bool),
    /// macro (0 plain, 1 ARR_), padded
    Use(usize, bool),
    Plain,
    Blank,
    Include(usize),
    Define(usize),
    If0,
}

fn p04_run(files: &[Vec<G>], i: usize, st: [Option<usize>; 2], out: &mut Vec<(usize, usize)>, hdr: usize) {
    // st[0]: suppress pw3, st[1]: flag ignore format
    let mut st = st;
    let mut line = if i == 0 { hdr } else { 0 };
    for g in &files[i] {
        line += 1;
        match g {
            G::Pragma(s, sc, _) => {
                let e = &mut st[usize::from(!*s)];
                *e = Some(e.map_or(*sc, |o| o.max(*sc)));
            }
            G::Use(m, padded) => {
                let muted = st[0].is_some() || (st[1].is_some() && *m == 1);
                if *padded && !muted {
                    out.push((i, line));
                }
            }
            G::Include(k) => {
                let child = st.map(|e| e.filter(|s| *s == 2));
                p04_run(files, *k, child, out, hdr);
            }
            G::Define(_) => {}
            G::If0 => line += 2,
            G::Plain | G::Blank => {}
        }
        if matches!(g, G::Use(..) | G::Plain | G::Blank) {
            for e in &mut st {
                if *e == Some(0) {
                    *e = None;
                }
            }
        }
    }
}

pub fn run_p04(cx: &mut Cx) {
    cx.group("malformed pragmas");
    let bad = [
        ("#pragma hemtt bogus pw3_padded_arg\n", true),
        ("#pragma hemtt suppress nothing\n", true),
        ("#pragma hemtt suppress pw3_padded_arg nowhere\n", true),
        ("#pragma hemtt suppress pw3_padded_arg file extra\n", true),
        ("#pragma hemtt flag nothing\n", true),
        ("#pragma hemtt flag pw3_padded_arg\n", true),
        ("#pragma hemtt suppress pw3_ignore_format\n", true),
        ("#pragma hemtt flag pw3_ignore_format nowhere\n", true),
        ("#pragma hemtt flag pw3_ignore_format FILE\n", true),
        ("#pragma hemtt suppress PW3_PADDED_ARG\n", true),
        ("#pragma hemtt suppress pw3_padded_arg 5\n", true),
        ("#pragma hemtt suppress pw3_padded_arg \"file\"\n", true),
        ("#pragma hemtt flag pw3_ignore_format \"config\"\n", true),
        ("#pragma hemtt suppress pw3_padded_arg line\n", false),
        ("#pragma hemtt suppress pw3_padded_arg file\n", false),
        ("#pragma hemtt suppress pw3_padded_arg config\n", false),
        ("#pragma hemtt suppress pw3_padded_arg\n", false),
        ("#pragma hemtt flag pw3_ignore_format line\n", false),
        ("#pragma hemtt flag pe23_ignore_has_include config\n", false),
        ("#pragma other whatever is here\n", false),
    ];
    for (t, err) in bad {
        let f = vec![("f0.hpp".to_string(), format!("{t}x\n"))];
        cx.case("P04:malformed", t, || {
            let r = pre(&f);
            ck!(r.is_err() == err, "{} expected, got {:?}", if err { "an error" } else { "no error" }, r.map(|p| p.as_str().to_string()));
            Ok(())
        });
    }
    cx.group("has_include flag");
    let h = "#if __has_include(\"q\")\nbad\n#else\ngood\n#endif\n";
    for (s, inc, ok) in [
        (format!("#pragma hemtt flag pe23_ignore_has_include\n{h}"), String::new(), true),
        (format!("#pragma hemtt flag pe23_ignore_has_include\nx\n{h}"), String::new(), false),
        (format!("#pragma hemtt flag pe23_ignore_has_include file\nx\n{h}"), String::new(), true),
        (format!("#pragma hemtt flag pe23_ignore_has_include config\nx\n{h}"), String::new(), true),
        ("#pragma hemtt flag pe23_ignore_has_include file\n#include \"f1.hpp\"\n".to_string(), h.to_string(), false),
        ("#pragma hemtt flag pe23_ignore_has_include config\n#include \"f1.hpp\"\n".to_string(), h.to_string(), true),
        ("#pragma hemtt flag pe23_ignore_has_include line\n#include \"f1.hpp\"\n".to_string(), h.to_string(), false),
        (format!("#include \"f1.hpp\"\n{h}"), "#pragma hemtt flag pe23_ignore_has_include config\n".to_string(), false),
        (h.to_string(), String::new(), false),
        (format!("#pragma hemtt suppress pw3_padded_arg config\n{h}"), String::new(), false),
    ] {
        let f = vec![("f0.hpp".to_string(), s), ("f1.hpp".to_string(), inc)];
        cx.case("P04:has_include", &desc(&f), || {
            let r = pre(&f);
            match r {
                Ok(p) => {
                    ck!(ok, "accepted outside the scope of the flag");
                    ck!(p.as_str().contains("good") && !p.as_str().contains("bad"), "output {:?}", p.as_str());
                    ck!(p.no_rapify(), "file with an ignored __has_include would be rapified");
                }
                Err(e) => ck!(!ok, "error {e} within the scope of the flag"),
            }
            Ok(())
        });
    }
    cx.group("generated files");
    while cx.time(1.0) {
        let hdr = 2;
        let mut files: Vec<Vec<G>> = vec![];
        for i in 0..3 {
            let mut f = vec![];
            for _ in 0..cx.rng.range(1, 9) {
                match cx.rng.n(9) {
                    0..=2 => {
                        let g = G::Pragma(cx.rng.b(), cx.rng.n(3), cx.rng.b());
                        f.push(g);
                    }
                    3..=5 => f.push(G::Use(cx.rng.n(2), cx.rng.n(4) > 0)),
                    6 => f.push(if cx.rng.b() { G::Plain } else { G::Blank }),
                    7 if i < 2 => {
                        f.push(G::Include(cx.rng.range(i + 1, 2)));
                        f.push(G::Plain);
                    }
                    _ => f.push(G::Use(cx.rng.n(2), true)),
                }
            }
            files.push(f);
        }
        let texts: Vec<(String, String)> = files
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let mut s = if i == 0 { "#define M(a) a\n#define ARR_1(a) a\n".to_string() } else { String::new() };
                for g in f {
                    match g {
                        G::Pragma(su, sc, w) => {
                            let c = if *su { "suppress pw3_padded_arg" } else { "flag pw3_ignore_format" };
                            let sc = match sc {
                                0 => if *w { " line" } else { "" },
                                1 => " file",
                                _ => " config",
                            };
                            s.push_str(&format!("#pragma hemtt {c}{sc}\n"));
                        }
                        G::Use(m, p) => {
                            let n = if *m == 1 { "ARR_1" } else { "M" };
                            s.push_str(&if *p { format!("{n}( x )\n") } else { format!("{n}(x)\n") });
                        }
                        G::Plain => s.push_str("plain\n"),
                        G::Blank => s.push('\n'),
                        G::Include(k) => s.push_str(&format!("#include \"f{k}.hpp\"\n")),
                        G::Define(k) => s.push_str(&format!("#define K{k}\n")),
                        G::If0 => s.push_str("#ifdef NEVER\nM( x )\n#endif\n"),
                    }
                }
                (format!("f{i}.hpp"), s)
            })
            .collect();
        cx.case("P04:scope", &desc(&texts), || {
            let p = pre(&texts).map_err(|e| format!("error {e}"))?;
            let mut exp = vec![];
            p04_run(&files, 0, [None, None], &mut exp, hdr);
            exp.sort_unstable();
            exp.dedup();
            let mut got: Vec<(usize, usize)> = p
                .warnings()
                .iter()
                .filter(|w| w.ident() == "PW3")
                .map(|w| {
                    let t = w.token().unwrap();
                    let n = t.position().path().filename();
                    (n[1..2].parse::<usize>().unwrap(), t.position().start().line())
                })
                .collect();
            got.sort_unstable();
            got.dedup();
            eq!(got, exp, "padded-argument warnings (file, line)");
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ P02
/// Body and argument items.
#[derive(Clone, Debug)]
enum T {
    /// plain text, taken literally
    Lit(String),
    /// parameter of the enclosing macro
    Param(usize),
    /// `#param`
    Quote(usize),
    /// `##`
    Join,
    /// use of a value macro
    Val(usize),
    /// use of a function macro
    Call(usize, Vec<Vec<T>>),
    /// double-quoted string, nothing inside is expanded
    Str(String),
}

#[derive(Clone, Debug)]
struct M {
    params: Option<usize>,
    body: Vec<T>,
    /// parameters with the name of a value macro that the body does not use, not even through another value macro
    alias: Vec<Option<usize>>,
}
fn vals(ts: &[T], out: &mut Vec<usize>) {
    for t in ts {
        match t {
            T::Val(v) => out.push(*v),
            T::Call(_, a) => a.iter().for_each(|x| vals(x, out)),
            _ => {}
        }
    }
}

struct P2 {
    macros: Vec<M>,
}
impl P2 {
    fn pname(&self, m: usize, p: usize) -> String {
        if let Some(Some(v)) = self.macros.get(m).and_then(|x| x.alias.get(p)) {
            return format!("V{v}");
        }
        format!("p{m}x{p}")
    }
    fn src(&self, ts: &[T], m: usize) -> String {
        let mut s = String::new();
        for t in ts {
            match t {
                T::Lit(l) => s.push_str(l),
                T::Param(p) => s.push_str(&self.pname(m, *p)),
                T::Quote(p) => {
                    s.push('#');
                    s.push_str(&self.pname(m, *p));
                }
                T::Join => s.push_str("##"),
                T::Val(v) => s.push_str(&format!("V{v}")),
                T::Call(f, a) => {
                    s.push_str(&format!("F{f}("));
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        s.push_str(&self.src(x, m));
                    }
                    s.push(')');
                }
                T::Str(l) => {
                    s.push('"');
                    s.push_str(l);
                    s.push('"');
                }
            }
        }
        s
    }
    fn exp(&self, ts: &[T], args: &[String]) -> String {
        let mut s = String::new();
        for t in ts {
            match t {
                T::Lit(l) => s.push_str(l),
                T::Param(p) => s.push_str(&args[*p]),
                T::Quote(p) => {
                    s.push('"');
                    s.push_str(&args[*p]);
                    s.push('"');
                }
                T::Join => {}
                T::Val(v) => s.push_str(&self.exp(&self.macros[*v].body, &[])),
                T::Call(f, a) => {
                    let a: Vec<String> = a.iter().map(|x| self.exp(x, args)).collect();
                    s.push_str(&self.exp(&self.macros[*f].body, &a));
                }
                T::Str(l) => {
                    s.push('"');
                    s.push_str(l);
                    s.push('"');
                }
            }
        }
        s
    }
}

/// `avail`: macros usable here; `np`: number of own parameters.
fn p02_items(rng: &mut Rng, p2: &P2, avail: &[usize], np: usize, n: usize, depth: usize, arg: bool) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    // neighbours must not fuse into other tokens: separate words by an operator
    for k in 0..n.max(1) {
        if k > 0 {
            match rng.n(6) {
                0 if !arg && np > 0 && !matches!(v.last(), Some(T::Str(_) | T::Quote(_) | T::Call(..) | T::Val(_))) => {
                    // a##b joins two words
                    v.push(T::Join);
                    v.push(if rng.b() { T::Param(rng.n(np)) } else { T::Lit(format!("j{}", rng.n(50))) });
                    continue;
                }
                1 if !arg => v.push(T::Lit(" ".into())),
                2 => v.push(T::Lit(" + ".into())),
                3 => v.push(T::Lit(";".into())),
                4 => v.push(T::Lit("-".into())),
                _ => v.push(T::Lit("=".into())),
            }
        }
        match rng.n(12) {
            0 | 1 if np > 0 => v.push(T::Param(rng.n(np))),
            2 if np > 0 && !arg => v.push(T::Quote(rng.n(np))),
            3 | 4 | 5 if !avail.is_empty() && depth > 0 => {
                let m = *rng.pick(avail);
                match p2.macros[m].params {
                    None => v.push(T::Val(m)),
                    Some(k) => {
                        let mut a = vec![];
                        for _ in 0..k {
                            let n = rng.range(1, 2);
                            a.push(p02_items(rng, p2, avail, np, n, depth - 1, true));
                        }
                        v.push(T::Call(m, a));
                    }
                }
            }
            6 => v.push(T::Str(match rng.n(5) {
                0 => "V0".into(),
                1 => "F0(a,b)".into(),
                2 => format!("p{}x0", rng.n(4)),
                3 => "a, (b".into(),
                _ => format!("s{}", rng.n(9)),
            })),
            7 => v.push(T::Lit(rng.range(0, 99).to_string())),
            8 => v.push(T::Lit(format!("(g{})", rng.n(9)))),
            // a name that is another macro's parameter
            9 => v.push(T::Lit(format!("p{}x{}", rng.range(90, 99), rng.n(3)))),
            10 if !arg && !p2.macros.is_empty() => {
                let m = rng.n(p2.macros.len());
                v.push(T::Lit(format!("p{m}x7")));
            }
            _ => v.push(T::Lit(format!("w{}", rng.n(50)))),
        }
    }
    v
}

fn joinable(s: &str) -> bool {
    !s.is_empty()
}

pub fn run_p02(cx: &mut Cx) {
    cx.group("scopes and definitions");
    let table: &[(&str, &[&str], Option<&str>)] = &[
        // first file, included, expected words (None: error)
        ("X\n#define X 1\nX\n#undef X\nX\n", &[], Some("X 1 X")),
        ("#define X 1\n#define X 2\nX\n", &[], Some("2")),
        ("#include \"f1.hpp\"\nX Y\n", &["#define X 1\nY\n#define Y X\n"], Some("Y 1 1")),
        ("#define X 1\n#include \"f1.hpp\"\nX\n", &["X\n#undef X\nX\n"], Some("1 X X")),
        ("#define F(a) [a]\nF(1) F((1)) F(F(2))\n", &[], Some("[1] [(1)] [[2]]")),
        ("#define F(a) [a]\nF\n", &[], None),
        ("#define F(a) [a]\nF(1,2)\n", &[], None),
        ("#define F(a,b) [a]\nF(1)\n", &[], None),
        ("#define F(a) #a\nF(x y)\n", &[], Some("\"x y\"")),
        ("#define F(a) a##_b\nF(x)\n", &[], Some("x_b")),
        ("#define F(a,b) a##b\nF(x,y)\n", &[], Some("xy")),
        ("#define F(a) \"a\" 'x'\nF(1)\n", &[], Some("\"a\" 'x'")),
        ("#define F(a) G(a) a\n#define G(b) b a\nF(1)\n", &[], Some("1 a 1")),
        ("#define F(a,b) G(b,a)\n#define G(a,b) a.b\nF(1,2)\n", &[], Some("2.1")),
        ("#define X X\nX\n", &[], Some("X")),
        ("#define X Y\n#define Y 5\nX\n#undef Y\n#define Y 6\nX\n", &[], Some("5 6")),
        ("#define X a \\\n b\nX\n", &[], Some("a b")),
        ("#define F(a) a \\\n a\nF(3)\n", &[], Some("3 3")),
        ("#define U\nU\n", &[], None),
        ("#define F(a) [a]\nF(\"x,y\")\n", &[], Some("[\"x,y\"]")),
        ("#define F(a) [a]\n#define V F(1)\nV V\n", &[], Some("[1] [1]")),
        ("#define F(a) [a]\nF(\"F(1)\")\n", &[], Some("[\"F(1)\"]")),
        ("__COUNTER__ __COUNTER__ __COUNTER_RESET__ __COUNTER__\n", &[], Some("0 1 0")),
        ("__LINE__\n\n__LINE__\n", &[], Some("1 3")),
    ];
    for (root, inc, exp) in table {
        let mut f = vec![("f0.hpp".to_string(), root.to_string())];
        for (i, c) in inc.iter().enumerate() {
            f.push((format!("f{}.hpp", i + 1), c.to_string()));
        }
        cx.case("P02:table", &desc(&f), || {
            match (pre(&f), exp) {
                (Ok(p), Some(e)) => eq!(p.as_str().split_whitespace().collect::<Vec<_>>().join(" "), e.to_string(), "output"),
                (Ok(p), None) => return Err(format!("an error was expected, output {:?}", p.as_str())),
                (Err(e), Some(x)) => return Err(format!("error {e}, expected {x:?}")),
                (Err(_), None) => {}
            }
            Ok(())
        });
    }
    cx.group("macro names at the end of a body");
    for s in [
        "#define U\n#define V U\nV\n", "#define F(a) a\n#define V F\nV\n", "#define F(a) a\n#define V F\nV(1)\n",
        "#define F(a) a\n#define G(b) F\nG(1)\n", "#define F(a) a\n#define V F(1\nV\n", "#define V #undef\nV\n", "#define V F(\n#define F(a) a\nV 1)\n",
        "#define F(a) #a\n#define V F(\"\nV\n", "#define F(a) #\nF(1)\n", "#define F(a) ##\nF(1)\n", "#define F(a) a##\nF(1)\n", "#define F(a) ##a\nF(1)\n",
        "#define F(a,a) a\nF(1,2)\n", "#define F() 1\nF()\n", "#define F() 1\nF\n", "#define F(a) a\nF()\n", "#define F(a) a\nF(", "#define F(a) a\nF", "#define U\nU",
        "#define V __LINE__\nV\n", "#define V __COUNTER__\nV V\n", "#define V __EVAL(1)\nV\n", "__EVAL\n", "__FILE__\n", "__FILE_NAME__ __FILE_SHORT__\n", "__EXEC(a)\n", "__DAY__\n",
    ] {
        let f = vec![("f0.hpp".to_string(), s.to_string())];
        cx.case("P02:crash", &desc(&f), || {
            let _ = pre(&f);
            Ok(())
        });
    }
    cx.group("self-referential definitions");
    for s in [
        "#define A B\n#define B A\nA\n",
        "#define A A\nA\n",
        "#define A B\n#define B C\n#define C A B C\nA B C\n",
        "#define F(x) G(x)\n#define G(x) F(x)\nF(1)\n",
        "#define F(x) F(x)\nF(1)\n",
        "#define F(x) F(F(x))\nF(1)\n",
        "#define F(x) x(x)\nF(F)\n",
        "#define F(x) V\n#define V F(1)\nV\nF(2)\n",
        "#define F(x) G(x) G(x)\n#define G(x) H(x) H(x)\n#define H(x) F(x)\nF(F(1))\n",
        "#define A F(A)\n#define F(x) x A\nA\n",
        "#define A F(B)\n#define B F(A)\n#define F(x) x\nA B\n",
    ] {
        let f = vec![("f0.hpp".to_string(), s.to_string())];
        cx.case("P02:loop", &desc(&f), || {
            let _ = pre(&f);
            Ok(())
        });
    }
    cx.group("generated definitions and uses");
    while cx.time(1.0) {
        let mut p2 = P2 { macros: vec![] };
        let n = cx.rng.range(1, 6);
        for _ in 0..n {
            let avail: Vec<usize> = (0..p2.macros.len()).collect();
            let params = if cx.rng.n(3) > 0 { Some(cx.rng.range(1, 3)) } else { None };
            let k = cx.rng.range(1, 5);
            let body = p02_items(&mut cx.rng, &p2, &avail, params.unwrap_or(0), k, 2, false);
            p2.macros.push(M { params, body, alias: vec![] });
        }
        for i in 0..p2.macros.len() {
            let mut used = vec![];
            vals(&p2.macros[i].body, &mut used);
            let mut k = 0;
            while k < used.len() {
                let v = used[k];
                vals(&p2.macros[v].body, &mut used);
                k += 1;
            }
            let mut free: Vec<usize> = (0..p2.macros.len()).filter(|v| p2.macros[*v].params.is_none() && !used.contains(v)).collect();
            cx.rng.shuffle(&mut free);
            for _ in 0..p2.macros[i].params.unwrap_or(0) {
                let a = if cx.rng.b() { free.pop() } else { None };
                p2.macros[i].alias.push(a);
            }
        }
        let avail: Vec<usize> = (0..n).collect();
        let mut order: Vec<usize> = (0..n).collect();
        cx.rng.shuffle(&mut order);
        let mut defs = vec![];
        for m in &order {
            let mm = &p2.macros[*m];
            defs.push(match mm.params {
                None => format!("#define V{m} {}\n", p2.src(&mm.body, *m)),
                Some(k) => format!("#define F{m}({}) {}\n", (0..k).map(|p| p2.pname(*m, p)).collect::<Vec<_>>().join(","), p2.src(&mm.body, *m)),
            });
        }
        let split = cx.rng.n(defs.len() + 1);
        let mut root = String::new();
        let mut inc = String::new();
        if cx.rng.b() {
            inc = defs[..split].concat();
            root.push_str("#include \"f1.hpp\"\n");
            root.push_str(&defs[split..].concat());
        } else {
            root.push_str(&defs.concat());
        }
        let mut exp = vec![];
        for _ in 0..cx.rng.range(1, 4) {
            let k = cx.rng.range(1, 3);
            let line = p02_items(&mut cx.rng, &p2, &avail, 0, k, 3, false);
            root.push_str(&p2.src(&line, 0));
            root.push('\n');
            exp.push(p2.exp(&line, &[]));
        }
        let f = vec![("f0.hpp".to_string(), root), ("f1.hpp".to_string(), inc)];
        cx.case("P02:expansion", &desc(&f), || {
            let p = pre(&f).map_err(|e| format!("error {e}, expected {exp:?}"))?;
            let got: Vec<String> = p.as_str().lines().map(str::to_string).filter(|l| !l.trim().is_empty()).collect();
            let norm = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            let e: Vec<String> = exp.iter().filter(|l| !l.trim().is_empty()).map(|l| norm(l)).collect();
            let g: Vec<String> = got.iter().map(|l| norm(l)).collect();
            eq!(g, e, "expanded lines");
            Ok(())
        });
    }

}

// ------------------------------------------------------------------ P03
pub fn run_p03(cx: &mut Cx) {
    cx.group("generated files");
    let mut n = 0u32;
    while cx.time(1.0) {
        let mut files: Vec<(String, String)> = (0..3).map(|i| (format!("f{i}.hpp"), String::new())).collect();
        // (text, file, byte offset, line, macro)
        let mut exp: Vec<(String, usize, usize, usize, bool)> = vec![];
        // definitions live in the root's header
        let mut hdr = String::new();
        hdr.push_str("#define VA alpha\u{e9}beta\n#define FA(x) <x>\n#define FB(x,y) FA(y) x VA\n");
        if cx.rng.b() {
            hdr.push_str("#define VM one \\\n two\n");
        } else {
            hdr.push_str("#define VM one  two\n");
        }
        let hl = hdr.matches('\n').count();
        files[0].1 = hdr;
        let mut lines = [hl + 1, 1, 1];
        let mut q = |rng: &mut Rng| {
            n += 1;
            match rng.n(4) {
                0 => format!("w{n}"),
                1 => format!("\u{e4}{n}\u{1F914}"),
                2 => format!("{n}"),
                _ => format!("q_{n}z"),
            }
        };
        fn fill(rng: &mut Rng, i: usize, files: &mut Vec<(String, String)>, lines: &mut [usize; 3], exp: &mut Vec<(String, usize, usize, usize, bool)>, q: &mut dyn FnMut(&mut Rng) -> String, used: &mut [bool; 3], crlfs: &mut [usize; 3]) {
            for _ in 0..rng.range(1, 6) {
                let mut put = |files: &mut Vec<(String, String)>, lines: &[usize; 3], src: &str, out: &str, mac: bool| {
                    let off = files[i].1.len() - crlfs[i];
                    files[i].1.push_str(src);
                    if !out.is_empty() {
                        exp.push((out.to_string(), i, off, lines[i], mac));
                    }
                };
                if i < 2 && rng.one_in(5) && !used[i + 1] {
                    used[i + 1] = true;
                    let inc = format!("#include \"f{}.hpp\"\n", i + 1);
                    files[i].1.push_str(&inc);
                    lines[i] += 1;
                    fill(rng, i + 1, files, lines, exp, q, used, crlfs);
                    continue;
                }
                if rng.one_in(8) {
                    files[i].1.push_str("#ifdef NOPE\nhidden \u{20ac}\n#endif\n");
                    lines[i] += 3;
                    continue;
                }
                for _ in 0..rng.range(1, 5) {
                    match rng.n(12) {
                        10 => {
                            // in a string there are no comments
                            put(files, lines, "\"", "\"", false);
                            let t = ["//", "/* c\u{e9} */", "/* c\nVA\n\u{e9} */"][rng.n(3)];
                            put(files, lines, t, t, false);
                            lines[i] += t.matches('\n').count();
                            let w = q(rng);
                            put(files, lines, &w, &w, false);
                            put(files, lines, "\"", "\"", false);
                        }
                        0 => put(files, lines, "VA", "alpha\u{e9}beta", true),
                        1 => {
                            let a = q(rng);
                            put(files, lines, &format!("FA({a})"), &format!("<{a}>"), true);
                        }
                        2 => {
                            let (a, b) = (q(rng), q(rng));
                            put(files, lines, &format!("FB({a},{b})"), &format!("<{b}> {a} alpha\u{e9}beta"), true);
                        }
                        3 => {
                            files[i].1.push_str("/* c\u{e9} */");
                        }
                        4 => {
                            files[i].1.push_str("/* c\n\u{e9} */");
                            lines[i] += 1;
                        }
                        5 => {
                            put(files, lines, "\"", "\"", false);
                            let w = q(rng);
                            put(files, lines, &w, &w, false);
                            put(files, lines, " ", " ", false);
                            put(files, lines, "VA", "VA", false);
                            put(files, lines, "\"", "\"", false);
                        }
                        _ => {
                            let w = q(rng);
                            put(files, lines, &w, &w, false);
                        }
                    }
                    put(files, lines, " ", " ", false);
                    if rng.one_in(9) {
                        // a joined line disappears from the output
                        files[i].1.push_str("\\\n");
                        lines[i] += 1;
                    }
                }
                if rng.one_in(6) {
                    files[i].1.push_str("// tail \u{e9} VA");
                }
                let crlf = rng.one_in(6);
                put(files, lines, if crlf { "\r\n" } else { "\n" }, "\n", false);
                crlfs[i] += usize::from(crlf);
                lines[i] += 1;
            }
        }
        let mut used = [true, false, false];
        fill(&mut cx.rng, 0, &mut files, &mut lines, &mut exp, &mut q, &mut used, &mut [0; 3]);
        let d = desc(&files);
        cx.case("P03:origin", &d, || {
            let p = pre(&files).map_err(|e| format!("error {e}"))?;
            let want: String = exp.iter().map(|e| e.0.as_str()).collect();
            eq!(p.as_str().to_string(), want, "output");
            let chars: Vec<char> = want.chars().collect();
            let mut at = 0;
            let mut line_no = 0;
            let mut col = 0;
            for (text, file, off, line, mac) in &exp {
                let begin = at;
                let mut inner = *off;
                for c in text.chars() {
                    let m = p.mapping(at).ok_or_else(|| format!("no origin for output character {at} {c:?}"))?;
                    let (path, content) = p.source(m.source()).ok_or("origin in an unknown source")?;
                    eq!(path.filename(), format!("f{file}.hpp"), "file of output character {at} ({text:?})");
                    eq!(m.original().path().filename(), format!("f{file}.hpp"), "path of the origin");
                    eq!(m.was_macro(), *mac, "came from a macro, output character {at} ({text:?})");
                    eq!(m.original().start().line(), *line, "line of the origin of output character {at} ({text:?})");
                    if *mac {
                        eq!(m.original_start(), *off, "macro use that produced output character {at} ({text:?})");
                    } else {
                        // the token covering it
                        let k = at - m.processed_start().offset();
                        let tok = content.get(m.original_start()..m.original_end()).ok_or("origin is not a span of the source")?;
                        let toff: usize = tok.chars().take(k).map(char::len_utf8).sum();
                        eq!(m.original_start() + toff, inner, "origin of output character {at} {c:?}");
                    }
                    inner += c.len_utf8();
                    eq!(p.get_byte_offset(at) as usize, chars[..at].iter().map(|c| c.len_utf8()).sum::<usize>(), "byte offset of character {at}");
                    at += 1;
                }
                // where the piece starts in the output
                if *mac || text.chars().count() == 1 {
                    let m = p.mapping(begin).unwrap();
                    eq!(m.processed_start().offset(), begin, "start of {text:?} in the output");
                    eq!((m.processed_start().line(), m.processed_start().column()), (line_no, col), "line and column of {text:?} in the output");
                }
                eq!(p.extract(begin..at).to_string(), text.clone(), "extract {begin}..{at}");
                // only a line break of its own starts a line of the output
                if text == "\n" {
                    line_no += 1;
                    col = 0;
                } else {
                    col += text.chars().count();
                }
            }
            eq!(p.get_byte_offset(chars.len()) as usize, want.len(), "byte offset of the end");
            if chars.is_empty() {
                return Ok(());
            }
            for (a, b) in [(0, chars.len()), (chars.len() / 3, chars.len() / 2), (0, 1), (chars.len() - 1, chars.len())] {
                if a < b {
                    eq!(p.extract(a..b).to_string(), chars[a..b].iter().collect::<String>(), "extract {a}..{b}");
                }
                eq!(p.extract_from(a..).to_string(), chars[a..].iter().collect::<String>(), "extract_from {a}..");
            }
            Ok(())
        });
    }
}
