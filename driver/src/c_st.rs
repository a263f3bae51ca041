//! T01: stringtables read, sorted, counted and written by the real code.
use crate::*;
use hemtt_stringtable::{Key, Package, Project, Totals};
use std::collections::BTreeMap;
use std::io::BufReader;

const LANGS: [&str; 24] = [
    "Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese", "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "SerboCroatian", "Norwegian", "Icelandic",
    "Hungarian", "Greek", "Finnish", "Dutch",
];
fn lang(i: usize) -> String {
    // the tags this reader knows: PascalCase of the field names
    if LANGS[i] == "SerboCroatian" { "Serbocroatian".into() } else { LANGS[i].into() }
}
fn get(k: &Key, i: usize) -> Option<String> {
    let f: [fn(&Key) -> Option<&str>; 24] = [
        Key::original, Key::english, Key::czech, Key::french, Key::spanish, Key::italian, Key::polish, Key::portuguese, Key::russian, Key::german, Key::korean, Key::japanese, Key::chinese, Key::chinesesimp, Key::turkish, Key::swedish,
        Key::slovak, Key::serbocroatian, Key::norwegian, Key::icelandic, Key::hungarian, Key::greek, Key::finnish, Key::dutch,
    ];
    f[i](k).map(str::to_string)
}
fn total(t: &Totals, i: usize) -> u32 {
    [
        t.original(), t.english(), t.czech(), t.french(), t.spanish(), t.italian(), t.polish(), t.portuguese(), t.russian(), t.german(), t.korean(), t.japanese(), t.chinese(), t.chinesesimp(), t.turkish(), t.swedish(), t.slovak(),
        t.serbocroatian(), t.norwegian(), t.icelandic(), t.hungarian(), t.greek(), t.finnish(), t.dutch(),
    ][i]
}

#[derive(Clone, Debug, PartialEq, Default)]
struct K {
    id: String,
    /// as it stands in the file, entities included
    texts: BTreeMap<usize, String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Pk {
    name: String,
    keys: Vec<K>,
    sub: Vec<Pk>,
}
/// the text an XML reader sees
fn plain(t: &str) -> String {
    t.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}
fn of(p: &Package) -> Pk {
    Pk {
        name: plain(p.name()),
        keys: p.keys().iter().map(|k| K { id: plain(k.id()), texts: (0..24).filter_map(|i| get(k, i).map(|t| (i, plain(&t)))).collect() }).collect(),
        sub: p.containers().iter().map(of).collect(),
    }
}
fn all(p: &Project) -> Vec<Pk> {
    p.packages().iter().map(of).collect()
}
fn sort(v: &mut Vec<Pk>, top: bool) {
    if top {
        v.sort_by(|a, b| a.name.cmp(&b.name));
    }
    for p in v {
        p.keys.sort_by(|a, b| a.id.cmp(&b.id));
        sort(&mut p.sub, false);
    }
}
fn count(p: &Pk, c: &mut [u32; 25]) {
    for k in &p.keys {
        c[24] += 1;
        for i in k.texts.keys() {
            c[*i] += 1;
        }
    }
    for s in &p.sub {
        count(s, c);
    }
}

// ---------------------------------------------------------------- generation
struct G {
    k: usize,
    comments: bool,
    entities: bool,
    multi: bool,
}
fn text(r: &mut Rng, g: &G) -> String {
    let n = r.range(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        match r.n(12) {
            0 if g.entities => s.push_str(["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&lt;br/&gt;"][r.n(6)]),
            1 if g.multi => s.push_str("x\n      y"),
            2 => s.push_str(["é", "ß", "漢字", "🙂", "%1", "'", "\"", ">", ";"][r.n(9)]),
            3 => s.push_str("a b"),
            _ => s.push_str(["Hello", "x", "1", "Key", "abc", "STR_A"][r.n(6)]),
        }
    }
    s
}
fn comment(r: &mut Rng, g: &G, ind: &str, o: &mut String) {
    if g.comments && r.one_in(6) {
        match r.n(3) {
            0 => o.push_str(&format!("{ind}<!-- note {} -->\n", r.n(5))),
            1 => o.push_str(&format!("{ind}<!-- two\n{ind}lines {} -->\n", r.n(5))),
            _ => o.push_str(&format!("{ind}<!--\n{ind}<Key ID=\"STR_Old\">\n{ind}</Key>\n{ind}-->\n")),
        }
    }
}
fn name(r: &mut Rng, g: &mut G) -> String {
    g.k += 1;
    if g.entities && r.one_in(6) {
        return format!("{}{}{}", ["a &amp; b", "x &lt;y&gt;", "&quot;q&quot;", "it's"][r.n(4)], r.n(3), g.k);
    }
    format!("{}{}{}", ["b", "A", "a", "Z", "_", "é"][r.n(6)], r.n(3), g.k)
}
fn package(r: &mut Rng, g: &mut G, depth: usize, tag: &str, o: &mut String) -> Pk {
    let ind = "    ".repeat(depth + 1);
    let nm = name(r, g);
    let mut p = Pk { name: plain(&nm), ..Pk::default() };
    comment(r, g, &ind, o);
    o.push_str(&format!("{ind}<{tag} name=\"{nm}\">\n"));
    let key = |r: &mut Rng, g: &mut G, o: &mut String| {
        let id = format!("STR_{}", name(r, g));
        let mut k = K { id: plain(&id), texts: BTreeMap::new() };
        comment(r, g, &ind, o);
        o.push_str(&format!("{ind}    <Key ID=\"{id}\">\n"));
        let mut ls: Vec<usize> = (0..24).filter(|_| r.one_in(4)).collect();
        if r.one_in(10) {
            ls = (0..24).collect();
        }
        r.shuffle(&mut ls);
        for l in ls {
            comment(r, g, &ind, o);
            let t = text(r, g);
            let tag = match r.n(8) {
                0 => lang(l).to_lowercase(),
                1 => lang(l).to_uppercase(),
                _ => lang(l),
            };
            o.push_str(&format!("{ind}        <{tag}>{t}</{tag}>\n"));
            k.texts.insert(l, plain(&t));
        }
        o.push_str(&format!("{ind}    </Key>\n"));
        k
    };
    let nk = r.n(5);
    for _ in 0..nk {
        let k = key(r, g, o);
        p.keys.push(k);
    }
    if depth < 4 {
        for _ in 0..r.n(3) {
            let s = package(r, g, depth + 1, "Container", o);
            p.sub.push(s);
        }
    }
    comment(r, g, &ind, o);
    o.push_str(&format!("{ind}</{tag}>\n"));
    p
}
fn project(r: &mut Rng, g: &mut G) -> (String, Vec<Pk>) {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"p\">\n");
    let mut v = vec![];
    for _ in 0..r.range(1, 3) {
        v.push(package(r, g, 0, "Package", &mut o));
    }
    o.push_str("</Project>\n");
    if r.one_in(4) {
        o = o.replace('\n', "\r\n");
    }
    (o, v)
}
fn read(s: &str) -> Result<Project, String> {
    Project::from_reader(BufReader::new(s.as_bytes())).map_err(|e| format!("not read: {e}"))
}
fn write(p: &Project) -> Result<String, String> {
    let mut o = String::new();
    p.to_writer(&mut o).map_err(|e| format!("not written: {e}"))?;
    Ok(o)
}
fn same(a: &[Pk], b: &[Pk], what: &str) -> R {
    for (x, y) in a.iter().zip(b) {
        ck!(x.name == y.name, "{what}: package {:?} where {:?} is expected", x.name, y.name);
        ck!(x.keys.len() == y.keys.len(), "{what}: {} has {} keys, expected {}", x.name, x.keys.len(), y.keys.len());
        for (k, l) in x.keys.iter().zip(&y.keys) {
            ck!(k == l, "{what}: key {k:?}, expected {l:?}");
        }
        same(&x.sub, &y.sub, what)?;
    }
    ck!(a.len() == b.len(), "{what}: {} containers, expected {}", a.len(), b.len());
    Ok(())
}
fn check(src: &str, want: &[Pk]) -> R {
    let mut p = read(src)?;
    same(&all(&p), want, "read")?;
    for (x, y) in p.packages().iter().zip(want) {
        let mut c = [0u32; 25];
        count(y, &mut c);
        let t = x.totals();
        ck!(t.total() == c[24], "total {} expected {}", t.total(), c[24]);
        for i in 0..24 {
            ck!(total(&t, i) == c[i], "total of {}: {}, expected {}", lang(i), total(&t, i), c[i]);
        }
    }
    let once = write(&p)?;
    let q = read(&once).map_err(|e| format!("written, {e}\n{once}"))?;
    same(&all(&q), want, "written and read")?;
    let mut sorted = want.to_vec();
    sort(&mut sorted, true);
    p.sort();
    same(&all(&p), &sorted, "sorted")?;
    let w1 = write(&p)?;
    let mut q = read(&w1).map_err(|e| format!("sorted and written, {e}\n{w1}"))?;
    same(&all(&q), &sorted, "sorted, written and read")?;
    q.sort();
    same(&all(&q), &sorted, "sorted twice")?;
    let w2 = write(&q)?;
    // where comments end up is not claimed
    ck!(src.contains("<!--") || w1 == w2, "sorting again changes the file:\n{w1}\n----\n{w2}");
    Ok(())
}

pub fn run_t01(cx: &mut Cx) {
    for (name, comments, entities, multi) in [("plain", false, false, false), ("entities", false, true, false), ("lines", false, true, true), ("comments", true, true, false), ("everything", true, true, true)] {
        cx.group(name);
        let end = match name {
            "plain" => 0.2,
            "entities" => 0.35,
            "lines" => 0.5,
            "comments" => 0.7,
            _ => 0.9,
        };
        while cx.time(end) {
            let mut g = G { k: 0, comments, entities, multi };
            let (s, v) = project(&mut cx.rng, &mut g);
            cx.case(name, &s.clone(), || check(&s, &v));
        }
    }
}
