//! N01 and W01 (second half): hemtt-workspace helpers.
use crate::*;
use hemtt_common::config::{LintConfig, LintConfigOverride, ProjectConfig};
use hemtt_workspace::lint::{AnyLintGroupRunner, AnyLintRunner, Lint, LintGroupRunner, LintManager, LintRunner};
use hemtt_workspace::position::LineCol;
use hemtt_workspace::reporting::{Codes, Processed, Severity};
use std::sync::{Arc, Mutex};

pub fn run_w01(cx: &mut Cx) {
    crate::c_small::w01_strip(cx, 0.5);
    cx.group("line and column of every offset");
    let al: Vec<char> = "ab \t\r\n\n\u{e9}\u{1f600}\u{2028}".chars().collect();
    let one = |cx: &mut Cx, s: &str| cx.case("linecol", &format!("{s:?}"), || {
        let cs: Vec<char> = s.chars().collect();
        for o in 0..cs.len() + 2 {
            let (mut l, mut c) = (1usize, 1usize);
            for x in cs.iter().take(o) { if *x == '\n' { l += 1; c = 1 } else { c += 1 } }
            let g = LineCol::from_content(s, o);
            eq!((g.line(), g.column(), g.offset()), (l, c, o), "line, column, offset for {o}");
            eq!(g, LineCol(o, (l, c)), "position for {o}");
        }
        Ok(())
    });
    let mut ts: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..4 {
        let to = ts.len();
        for i in from..to { for c in &al { let mut t = ts[i].clone(); t.push(*c); ts.push(t); } }
        from = to;
    }
    for t in &ts { one(cx, t); }
    while cx.time(1.0) {
        let s: String = (0..cx.rng.n(60)).map(|_| *cx.rng.pick(&al)).collect();
        one(cx, &s);
    }
}

// ---------------------------------------------------------------- N01
const IDENTS: [&str; 5] = ["alpha", "beta", "gamma", "alpha_beta", "Alpha"];
const SEVS: [Severity; 4] = [Severity::Error, Severity::Warning, Severity::Help, Severity::Note];
const OPTS: [&str; 3] = ["check", "ignore", "check_all"];
type Opt = std::collections::BTreeMap<String, i64>;

#[derive(Clone, Debug)]
struct Want { enabled: bool, severity: Severity, options: Opt }
#[derive(Clone, Debug, Default)]
struct Over { enabled: Option<bool>, severity: Option<Severity>, options: Opt, present: bool }
fn opts(r: &mut Rng) -> Opt {
    let mut o = Opt::new();
    for k in OPTS { if r.one_in(3) { o.insert(k.into(), r.n(4) as i64); } }
    o
}
fn want(r: &mut Rng) -> Want { Want { enabled: !r.one_in(4), severity: *r.pick(&SEVS), options: opts(r) } }
fn make(w: &Want) -> LintConfig {
    let o = w.options.iter().map(|(k, v)| (k.clone(), toml::Value::Integer(*v))).collect();
    LintConfig::new(w.severity, o).with_enabled(w.enabled)
}
fn over(r: &mut Rng) -> Over {
    if r.one_in(4) { return Over::default(); }
    Over { enabled: if r.b() { Some(!r.one_in(3)) } else { None }, severity: if r.b() { Some(*r.pick(&SEVS)) } else { None }, options: opts(r), present: true }
}
fn applied(w: &Want, o: &Over) -> Want {
    let mut n = w.clone();
    if let Some(e) = o.enabled { n.enabled = e; }
    if let Some(s) = o.severity { n.severity = s; }
    for (k, v) in &o.options { n.options.insert(k.clone(), *v); }
    n
}
/// Lines of a project file for one override; `short` uses the one-value forms where they exist.
fn toml_of(section: &str, ident: &str, o: &Over, short: bool) -> String {
    if !o.present { return String::new(); }
    let sec = if section.is_empty() { ident.to_string() } else { format!("{section}.{ident}") };
    if short && o.options.is_empty() {
        match (o.enabled, o.severity) {
            (Some(e), None) => return format!("[{section}]\n{ident} = {e}\n"),
            (None, Some(s)) => return format!("[{section}]\n{ident} = \"{s:?}\"\n"),
            _ => {}
        }
    }
    let mut t = format!("[{sec}]\n");
    if let Some(e) = o.enabled { t.push_str(&format!("enabled = {e}\n")); }
    if let Some(s) = o.severity { t.push_str(&format!("severity = \"{s:?}\"\n")); }
    for (k, v) in &o.options { t.push_str(&format!("options.{k} = {v}\n")); }
    t
}
fn got(c: &LintConfig) -> Want {
    let mut o = Opt::new();
    for k in OPTS { if let Some(v) = c.option(k) { o.insert(k.into(), v.as_integer().unwrap_or(-99)); } }
    Want { enabled: c.enabled(), severity: c.severity(), options: o }
}
fn same(a: &Want, b: &Want) -> bool { a.enabled == b.enabled && a.severity == b.severity && a.options == b.options }

type Log = Arc<Mutex<Vec<(String, Want)>>>;
struct L { ident: &'static str, want: Want, min: Severity, log: Log, runners: usize }
impl Lint<()> for L {
    fn ident(&self) -> &'static str { self.ident }
    fn description(&self) -> &'static str { "" }
    fn documentation(&self) -> &'static str { "" }
    fn default_config(&self) -> LintConfig { make(&self.want) }
    fn minimum_severity(&self) -> Severity { self.min }
    fn runners(&self) -> Vec<Box<dyn AnyLintRunner<()>>> {
        (0..self.runners).map(|_| Box::new(Run(self.ident, self.log.clone())) as Box<dyn AnyLintRunner<()>>).collect()
    }
}
struct Run(&'static str, Log);
struct Target;
struct Elsewhere;
impl LintRunner<()> for Run {
    type Target = Target;
    fn run(&self, _p: Option<&ProjectConfig>, config: &LintConfig, _x: Option<&Processed>, _t: &Target, _d: &()) -> Codes {
        self.1.lock().unwrap().push((self.0.to_string(), got(config)));
        vec![]
    }
}
struct Group(Log);
impl LintGroupRunner<()> for Group {
    type Target = Target;
    fn run(&self, _p: Option<&ProjectConfig>, config: HashMap<String, LintConfig>, _x: Option<&Processed>, _t: &Target, _d: &()) -> Codes {
        let mut l = self.0.lock().unwrap();
        let mut v: Vec<_> = config.iter().map(|(k, c)| (format!("group:{k}"), got(c))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        l.extend(v);
        vec![]
    }
}
fn level(s: Severity) -> u8 { match s { Severity::Help => 0, Severity::Note => 1, Severity::Warning => 2, Severity::Error => 3, Severity::Bug => 4 } }

pub fn run_n01(cx: &mut Cx) {
    cx.group("project files: the settings of each section");
    let dir = crate::scratch("n01");
    let mut k = 0u64;
    let load = |dir: &std::path::Path, project: &str, lints: Option<&str>| -> Result<ProjectConfig, String> {
        let p = dir.join("project.toml");
        std::fs::write(&p, project).map_err(|e| e.to_string())?;
        let l = dir.join("lints.toml");
        let _ = std::fs::remove_file(&l);
        if let Some(t) = lints { std::fs::write(&l, t).map_err(|e| e.to_string())?; }
        ProjectConfig::from_file(&p).map_err(|e| format!("{e}"))
    };
    let head = "name = \"x\"\nprefix = \"x\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\n";
    let sections = ["config", "sqf", "stringtables"];
    while cx.time(0.4) {
        k += 1;
        // overrides of every section for every ident; one file holds them, in either place
        let mut all: Vec<(usize, &str, Over)> = vec![];
        for s in 0..3 { for i in IDENTS { if cx.rng.one_in(3) { let o = over(&mut cx.rng); all.push((s, i, o)); } } }
        let short = cx.rng.b();
        let mode = cx.rng.n(3);
        let mut text = String::new();
        for s in 0..3 {
            // short forms share one table
            let mut shorts = String::new();
            for (x, i, o) in &all {
                if *x != s { continue; }
                let sec = if mode == 1 { sections[s].to_string() } else { format!("lints.{}", sections[s]) };
                let t = toml_of(&sec, i, o, short);
                let h = format!("[{sec}]\n");
                if let Some(rest) = t.strip_prefix(&h) { shorts.push_str(rest); } else { text.push_str(&t); }
            }
            if !shorts.is_empty() {
                let sec = if mode == 1 { sections[s].to_string() } else { format!("lints.{}", sections[s]) };
                text = format!("[{sec}]\n{shorts}{text}");
            }
        }
        let any = all.iter().any(|(_, _, o)| o.present);
        let def: Vec<Want> = (0..IDENTS.len()).map(|_| want(&mut cx.rng)).collect();
        let extra = ["[config]\nzeta = false\n", "[sqf]\nzeta = false\n", "[stringtables]\nzeta = false\n"][cx.rng.n(3)];
        cx.case("project-file", &format!("mode {mode} (0 project.toml, 1 lints.toml, 2 both)\n{text}"), || {
            let r = match mode { 0 => load(&dir, &format!("{head}{text}"), None), 1 => load(&dir, head, Some(&text)), _ => load(&dir, &format!("{head}{text}"), Some(extra)) };
            let p = match r {
                Ok(p) => { ck!(mode != 2 || !any, "settings in both project.toml and lints.toml: one of them is dropped silently"); p }
                Err(e) => { ck!(mode == 2 && any, "not read: {e}"); return Ok(()); }
            };
            if mode == 2 { return Ok(()); }
            for s in 0..3 {
                let m = match s { 0 => p.lints().config(), 1 => p.lints().sqf(), _ => p.lints().stringtables() };
                for (n, i) in IDENTS.iter().enumerate() {
                    let o = all.iter().find(|(x, j, _)| *x == s && j == i).map(|x| x.2.clone()).unwrap_or_default();
                    eq!(m.contains_key(*i), o.present, "is {}.{i} overridden", sections[s]);
                    if let Some(c) = m.get(*i) {
                        eq!((c.enabled(), c.severity()), (o.enabled, o.severity), "override {}.{i}", sections[s]);
                        let (g, w) = (got(&c.apply(make(&def[n]))), applied(&def[n], &o));
                        ck!(same(&g, &w), "{}.{i}: default {:?} with override {o:?} gives {g:?}, expected {w:?}", sections[s], def[n]);
                    }
                }
            }
            Ok(())
        });
        if k == 1 { let _ = cx.time(0.0); }
    }
    cx.group("every single override on every default");
    for e in [None, Some(true), Some(false)] { for s in [None, Some(Severity::Error), Some(Severity::Warning), Some(Severity::Help)] { for m in 0..4usize { for de in [true, false] { for ds in SEVS { for dm in 0..4usize {
        let o = Over { enabled: e, severity: s, options: OPTS.iter().enumerate().filter(|(i, _)| m & (1 << i) != 0).map(|(_, k)| ((*k).to_string(), 7)).collect(), present: true };
        let w = Want { enabled: de, severity: ds, options: OPTS.iter().enumerate().filter(|(i, _)| dm & (1 << i) != 0).map(|(_, k)| ((*k).to_string(), 3)).collect() };
        cx.case("apply", &format!("{w:?} with {o:?}"), || {
            let t = toml_of("", "x", &o, false);
            let c: HashMap<String, LintConfigOverride> = toml::from_str(&t).map_err(|e| format!("{e}"))?;
            let g = got(&c["x"].apply(make(&w)));
            let x = applied(&w, &o);
            ck!(same(&g, &x), "gives {g:?}, expected {x:?}");
            Ok(())
        });
    } } } } } }
    cx.group("lint runs");
    while cx.time(1.0) {
        let r = &mut cx.rng;
        let log: Log = Arc::new(Mutex::new(vec![]));
        let mut lints: Vec<(usize, &'static str, Want, Severity, usize, Over)> = vec![];
        let mut over_text = String::new();
        for i in IDENTS {
            let w = want(r);
            let min = if r.b() { Severity::Help } else { *r.pick(&SEVS) };
            let o = over(r);
            over_text.push_str(&toml_of("", i, &o, false));
            // 0: single lints, 1 and 2: groups, 3: not registered
            lints.push((r.n(4), i, w, min, r.range(1, 2), o));
        }
        let via_extend = r.b();
        let desc = format!("{lints:?} extend={via_extend}");
        cx.case("run", &desc, || {
            let c: HashMap<String, LintConfigOverride> = toml::from_str(&over_text).map_err(|e| format!("{e}"))?;
            let mut m = LintManager::<()>::new(c);
            let mk = |x: &(usize, &'static str, Want, Severity, usize, Over)| -> Arc<Box<dyn Lint<()>>> { Arc::new(Box::new(L { ident: x.1, want: x.2.clone(), min: x.3, log: log.clone(), runners: x.4 })) };
            // a setting that goes below the minimum, or disables an error lint, must be reported and nothing registered
            let invalid = |x: &(usize, &'static str, Want, Severity, usize, Over)| x.5.present && { let a = applied(&x.2, &x.5); level(a.severity) < level(x.3) || !a.enabled && x.3 == Severity::Error };
            let mut expect: Vec<(String, Want)> = vec![];
            let singles: Vec<_> = lints.iter().filter(|x| x.0 == 0).collect();
            if via_extend {
                let bad = singles.iter().any(|x| invalid(x));
                let r = m.extend(singles.iter().map(|x| mk(x)).collect());
                eq!(r.is_err(), bad, "extend refuses invalid settings");
                if !bad { for x in &singles { let a = applied(&x.2, &x.5); if a.enabled { for _ in 0..x.4 { expect.push((x.1.into(), a.clone())); } } } }
            } else {
                for x in &singles {
                    eq!(m.push(mk(x)).is_err(), invalid(x), "push of {} refuses invalid settings", x.1);
                    if !invalid(x) {
                        ck!(m.push(mk(x)).is_err(), "{} registered twice", x.1);
                        let a = applied(&x.2, &x.5);
                        if a.enabled { for _ in 0..x.4 { expect.push((x.1.into(), a.clone())); } }
                    }
                }
            }
            for g in 1..3 {
                let of: Vec<_> = lints.iter().filter(|x| x.0 == g).collect();
                let bad = of.iter().any(|x| invalid(x));
                let r = m.push_group(of.iter().map(|x| mk(x)).collect(), Box::new(Group(log.clone())) as Box<dyn AnyLintGroupRunner<()>>);
                eq!(r.is_err(), bad, "push_group refuses invalid settings");
                if bad { continue; }
                let mut v: Vec<_> = of.iter().map(|x| (format!("group:{}", x.1), applied(&x.2, &x.5))).filter(|x| x.1.enabled).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                expect.extend(v);
            }
            let codes = m.run(&(), None, None, &Elsewhere);
            ck!(codes.is_empty() && log.lock().unwrap().is_empty(), "ran for another kind of target");
            m.run(&(), None, None, &Target);
            let g = log.lock().unwrap().clone();
            eq!(g.iter().map(|x| &x.0).collect::<Vec<_>>(), expect.iter().map(|x| &x.0).collect::<Vec<_>>(), "lints that ran");
            for (a, b) in g.iter().zip(&expect) { ck!(same(&a.1, &b.1), "{} ran with {:?}, expected {:?}", a.0, a.1, b.1); }
            Ok(())
        });
    }
}
