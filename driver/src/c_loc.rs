//! W02: lookups in a workspace in memory, against a list of its files.
use crate::*;
use hemtt_common::config::PDriveOption;
use hemtt_workspace::{Workspace, WorkspacePath};
use std::collections::BTreeSet;
use vfs::{MemoryFS, VfsPath};

struct Addon {
    dir: String,
    parts: Vec<String>,
}
struct Mod {
    files: BTreeSet<String>,
    addons: Vec<Addon>,
}
fn e2s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

fn parts(p: &str) -> Vec<&str> {
    p.split('/').filter(|s| !s.is_empty()).collect()
}
impl Mod {
    /// every file and directory
    fn all(&self) -> BTreeSet<String> {
        let mut o = BTreeSet::from([String::new()]);
        for f in &self.files {
            let mut at = String::new();
            for c in parts(f) {
                at = format!("{at}/{c}");
                o.insert(at.clone());
            }
        }
        o
    }
    fn show(&self) -> String {
        format!("files={:?} prefixes={:?}", self.files, self.addons.iter().map(|a| (&a.dir, a.parts.join("\\"))).collect::<Vec<_>>())
    }
    fn vfs(&self) -> Result<VfsPath, String> {
        let root: VfsPath = MemoryFS::new().into();
        for f in &self.files {
            let p = root.join(f).map_err(e2s)?;
            p.parent().create_dir_all().map_err(e2s)?;
            let text = match self.addons.iter().find(|a| format!("{}/$PBOPREFIX$", a.dir) == *f) {
                Some(a) => a.parts.join("\\"),
                None => f.clone(),
            };
            p.create_file().map_err(e2s)?.write_all(text.as_bytes()).map_err(e2s)?;
        }
        Ok(root)
    }
    fn workspace(&self) -> Result<WorkspacePath, String> {
        Workspace::create(self.vfs()?, vec![], None, true, &PDriveOption::Disallow).map_err(|e| format!("workspace: {e}"))
    }
    /// what a path leads to; Err: refused
    fn find(&self, from: &str, asked: &str) -> Result<Option<String>, ()> {
        let all = self.all();
        let p = asked.replace('\\', "/");
        if !p.starts_with('/') {
            let t = join(&from[..from.rfind('/').unwrap_or(0)], &p)?;
            return Ok(all.contains(&t).then_some(t));
        }
        let exact = join("", &p)?;
        if all.contains(&exact) {
            return Ok(Some(exact));
        }
        let have: Vec<String> = parts(&p).iter().map(|s| s.to_lowercase()).collect();
        let best = self
            .addons
            .iter()
            .filter(|a| have.len() > a.parts.len() && a.parts.iter().zip(&have).all(|(x, y)| x.to_lowercase() == *y))
            .max_by_key(|a| a.parts.len());
        let target = match best {
            Some(a) => join(&a.dir, &parts(&p)[a.parts.len()..].join("/"))?,
            None => exact,
        };
        if all.contains(&target) {
            return Ok(Some(target));
        }
        for root in ["", "/include"] {
            let t = format!("{root}{target}");
            if let Some(x) = all.iter().find(|x| x.eq_ignore_ascii_case(&t) && x.starts_with(root)) {
                return Ok(Some(x.clone()));
            }
        }
        Ok(None)
    }
}
/// a path seen from a directory; a slash at the end is refused
fn join(dir: &str, p: &str) -> Result<String, ()> {
    if p.len() > 1 && p.ends_with('/') {
        return Err(());
    }
    let mut at: Vec<&str> = if p.starts_with('/') { vec![] } else { parts(dir) };
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            c => at.push(c),
        }
    }
    Ok(at.iter().map(|c| format!("/{c}")).collect())
}
const PREFIXES: [&[&str]; 8] = [
    &["z", "ace", "addons", "main"],
    &["z", "ace"],
    &["z", "ace", "addons", "main", "sub"],
    &["Z", "\u{c9}clair", "Main"],
    &["x", "cba"],
    &["x", "cba", "addons"],
    &["main"],
    &["z", "ace", "addons", "mai"],
];
fn twist(rng: &mut Rng, s: &str) -> String {
    let mode = rng.n(4);
    s.chars()
        .flat_map(|c| -> Vec<char> {
            match mode {
                0 => vec![c],
                1 => c.to_lowercase().collect(),
                2 => c.to_uppercase().collect(),
                _ => {
                    if rng.b() {
                        c.to_lowercase().collect()
                    } else {
                        c.to_uppercase().collect()
                    }
                }
            }
        })
        .collect()
}
fn slashes(rng: &mut Rng, s: &str) -> String {
    let mode = rng.n(4);
    s.chars()
        .flat_map(|c| match c {
            '/' if mode == 1 => vec!['\\'],
            '/' if mode == 2 && rng.b() => vec!['\\'],
            '/' if mode == 3 && rng.one_in(6) => vec!['/', '/'],
            c => vec![c],
        })
        .collect()
}
fn gen(rng: &mut Rng) -> Mod {
    let mut m = Mod { files: BTreeSet::new(), addons: vec![] };
    let names = ["script.sqf", "Config.cpp", "Script_Macros.hpp", "sub/a.hpp", "Functions/fnc_x.sqf", "sub/deep/B.hpp", "caf\u{e9}.paa", "addons/x.hpp", "Main/script.sqf"];
    let mut put = |rng: &mut Rng, m: &mut Mod, f: String| {
        // no two places that differ in case only, no file where a directory is
        let _ = rng;
        let all = m.all();
        let mut at = String::new();
        for c in parts(&f) {
            at = format!("{at}/{c}");
            if all.iter().any(|x| x != &at && x.to_lowercase() == at.to_lowercase()) || m.files.contains(&at) {
                return;
            }
        }
        if !all.contains(&f) {
            m.files.insert(f);
        }
    };
    for i in 0..rng.range(1, 4) {
        let place = *rng.pick(&["addons", "optionals", "include", "addons/group"]);
        let dir = format!("/{place}/{}{i}", rng.pick(&["a", "Main", "x"]));
        let ps: Vec<String> = rng.pick(&PREFIXES).iter().map(|s| (*s).to_string()).collect();
        if m.addons.iter().any(|a| a.parts.iter().map(|p| p.to_lowercase()).eq(ps.iter().map(|p| p.to_lowercase()))) {
            continue;
        }
        let before = m.files.len();
        put(rng, &mut m, format!("{dir}/$PBOPREFIX$"));
        if m.files.len() == before {
            continue;
        }
        for _ in 0..rng.n(4) {
            let n = rng.pick(&names).to_string();
            put(rng, &mut m, format!("{dir}/{n}"));
        }
        m.addons.push(Addon { dir, parts: ps });
    }
    for _ in 0..rng.n(4) {
        let ps = rng.pick(&PREFIXES).join("/");
        let place = *rng.pick(&["", "/include", "/other"]);
        let n = rng.pick(&names).to_string();
        put(rng, &mut m, format!("{place}/{ps}/{n}"));
    }
    m
}
fn query(rng: &mut Rng, m: &Mod, from: &str) -> String {
    let files: Vec<&String> = m.files.iter().collect();
    let f = (*rng.pick(&files)).clone();
    let q = match rng.n(10) {
        0..=3 if !m.addons.is_empty() => {
            // a file by the prefix of an addon
            let a = rng.pick(&m.addons);
            let rest = match f.strip_prefix(&format!("{}/", a.dir)) {
                Some(r) => r.to_string(),
                None => rng.pick(&["script.sqf", "nothing.hpp", "sub/a.hpp", "Main/script.sqf", "sub/../script.sqf", "addons/main/script.sqf"]).to_string(),
            };
            let p = format!("/{}", a.parts.join("/"));
            if rng.b() {
                format!("{p}/{rest}")
            } else {
                format!("{}/{}", twist(rng, &p), if rng.b() { twist(rng, &rest) } else { rest })
            }
        }
        4 => f.clone(),
        5 => twist(rng, &f),
        6 => f.strip_prefix("/include").unwrap_or(&f).to_string(),
        7 => {
            // next to the one that asks
            let d = &from[..from.rfind('/').unwrap_or(0)];
            match f.strip_prefix(&format!("{d}/")) {
                Some(r) => r.to_string(),
                None => format!("{}{}", "../".repeat(parts(d).len()), &f[1..]),
            }
        }
        8 => f[..f.rfind('/').unwrap_or(0)].to_string(),
        _ => {
            let mut s = String::new();
            for _ in 0..rng.n(7) {
                s.push_str(rng.pick(&["/", "\\", "..", ".", "a", "z", "ace", "/a3/", "\u{130}", "\u{e9}", " ", "//", "a3", "main", "$", "\0"]));
            }
            s
        }
    };
    slashes(rng, &q)
}
fn check(m: &Mod, w: &WorkspacePath, from: &str, q: &str) -> R {
    let here = w.join(from).map_err(e2s)?;
    let got = match here.locate(q) {
        Ok(Some(r)) => {
            ck!(r.path.exists().map_err(e2s)?, "{q:?} gives {} which does not exist", r.path);
            Ok(Some(r.path.as_str().to_string()))
        }
        Ok(None) => Ok(None),
        Err(_) => Err(()),
    };
    let want = m.find(from, q);
    ck!(got == want, "{q:?} asked for in {from}: found {got:?}, not {want:?}");
    Ok(())
}
pub fn run(cx: &mut Cx) {
    cx.group("lookups");
    for _ in 0..2500 {
        let m = gen(&mut cx.rng);
        if m.files.is_empty() {
            continue;
        }
        let Ok(w) = m.workspace() else {
            cx.case("workspace", &m.show(), || m.workspace().map(|_| ()));
            continue;
        };
        let all: Vec<String> = m.files.iter().cloned().collect();
        for _ in 0..24 {
            let from = cx.rng.pick(&all).clone();
            let q = query(&mut cx.rng, &m, &from);
            cx.case("locate", &format!("{} {q:?} from {from}", m.show()), || check(&m, &w, &from, &q));
        }
        if !cx.time(0.75) {
            break;
        }
    }
    cx.group("discovery");
    for i in 0..400 {
        let mut m = gen(&mut cx.rng);
        let twice = i % 2 == 0 && !m.addons.is_empty();
        if twice {
            // a second addon with the prefix of another one
            let ps = m.addons[0].parts.iter().map(|p| twist(&mut cx.rng, p)).collect();
            let dir = format!("/{}/twin", cx.rng.pick(&["addons", "optionals", "include", "addons/deep/er"]));
            m.files.insert(format!("{dir}/$PBOPREFIX$"));
            m.addons.push(Addon { dir, parts: ps });
        }
        let named = |n: &str| m.files.iter().filter(|f| ["/addons/", "/optionals/", "/include/"].iter().any(|d| f.starts_with(d)) && f.to_lowercase().ends_with(n)).cloned().collect::<BTreeSet<_>>();
        cx.case("discover", &m.show(), || {
            match m.workspace() {
                Ok(w) => {
                    ck!(!twice, "two addons with the same prefix were accepted");
                    eq!(w.addons().iter().map(|a| a.as_str().to_string()).collect::<BTreeSet<_>>(), named("/config.cpp"), "addons");
                    Ok(())
                }
                Err(e) => {
                    ck!(twice && e.to_lowercase().contains("prefix"), "refused: {e}");
                    Ok(())
                }
            }
        });
        if !cx.time(1.0) {
            break;
        }
    }
}
