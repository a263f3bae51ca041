//! Executable form of the contracts, run on the real code.
//! hvd <suite> --seed N --secs S [--trace FILE]
//! stdout: `FAIL {json}` per failing case (one per key), `STAT {json}`, `DONE`.
#![allow(dead_code, unused_imports)]
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[cfg(feature = "config")]
mod c_cfg;
#[cfg(feature = "common")]
mod c_common;
#[cfg(feature = "lzo")]
mod c_lzo;
#[cfg(feature = "pbo")]
mod c_pbo;
#[cfg(feature = "p3d")]
mod c_p3d;
#[cfg(feature = "paa")]
mod c_paa;
#[cfg(feature = "preprocessor")]
mod c_pre;
#[cfg(feature = "common")]
mod c_small;
#[cfg(feature = "stringtable")]
mod c_st;
#[cfg(feature = "workspace")]
mod c_ws;
#[cfg(feature = "workspace")]
mod c_loc;
#[cfg(feature = "signing")]
mod c_signing;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    pub fn b(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.n(n) == 0
    }
    pub fn u32(&mut self) -> u32 {
        self.next() as u32
    }
    /// interesting 32-bit values
    pub fn u32x(&mut self) -> u32 {
        match self.n(6) {
            0 => self.n(4) as u32,
            1 => 1u32 << self.n(32),
            2 => (1u64 << self.range(1, 32)).wrapping_sub(1) as u32,
            3 => u32::MAX - self.n(4) as u32,
            4 => self.n(300) as u32,
            _ => self.u32() >> self.n(32),
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Cx {
    pub rng: Rng,
    pub seed: u64,
    start: Instant,
    secs: f64,
    trace: Option<String>,
    fails: HashMap<String, u32>,
    nfail: usize,
    cases: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    group: String,
    groups: Vec<(String, u64, u64)>,
}

/// Milliseconds since start at which the running case began (0: none).
static CASE_START: AtomicU64 = AtomicU64::new(0);
const HANG_MS: u64 = 20_000;

pub type R = Result<(), String>;

impl Cx {
    /// Part of the time budget still left?
    pub fn time(&self, frac: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.secs * frac
    }
    pub fn group(&mut self, name: &str) {
        self.flush();
        self.group = name.to_string();
    }
    fn flush(&mut self) {
        if self.cases > 0 {
            println!(
                "STAT {{\"group\":{},\"cases\":{},\"distinct\":{},\"samples\":[{}]}}",
                js(&self.group),
                self.cases,
                self.distinct.len(),
                self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            );
        }
        self.cases = 0;
        self.distinct.clear();
        self.samples.clear();
    }
    pub fn fail(&mut self, key: &str, case: &str, detail: &str) {
        let c = self.fails.entry(key.to_string()).or_insert(0);
        *c += 1;
        if *c <= 1 && self.nfail < 60 {
            self.nfail += 1;
            let clip = |s: &str, n: usize| s.chars().take(n).collect::<String>();
            println!("FAIL {{\"key\":{},\"case\":{},\"detail\":{}}}", js(key), js(&clip(case, 4000)), js(&clip(detail, 1500)));
        }
    }
    /// Run one case on the real code; a panic, a hang or an Err is a failure.
    pub fn case(&mut self, key: &str, desc: &str, f: impl FnOnce() -> R) {
        self.cases += 1;
        let h = fnv(desc.as_bytes()) ^ fnv(key.as_bytes());
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
        if self.samples.len() < 3 && self.cases % 97 == 3 {
            self.samples.push(desc.chars().take(300).collect());
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, format!("{key}\n{desc}\n"));
        }
        CASE_START.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(0, Ordering::SeqCst);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                // an error text may carry a finer key: "key|text"
                self.fail(key, desc, &e);
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<&str>()
                    .map(|s| (*s).to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                let loc = LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default();
                self.fail(&format!("{key}:panic"), desc, &format!("panic at {loc}: {m}"));
            }
        }
    }
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0x80..0xa0).contains(&(c as u32)) || matches!(c as u32, 0x2028 | 0x2029) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 600 {
        return format!("{}..({} bytes, fnv {:016x})", hex(&b[..600]), b.len(), fnv(b));
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        { let (a, b) = (&$a, &$b);
          if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); } }
    };
}

/// A scratch directory of our own (the runner sets HVD_SCRATCH).
pub fn scratch(name: &str) -> std::path::PathBuf {
    let base = std::env::var("HVD_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().join("hvd-scratch").display().to_string());
    let p = std::path::PathBuf::from(base).join(name);
    let _ = std::fs::create_dir_all(&p);
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let suite = a.get(1).cloned().unwrap_or_default();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    #[cfg(feature = "preprocessor")]
    if suite == "pp" {
        // hvd pp FILE..: preprocess the first file (a debugging aid)
        let files: Vec<(String, String)> = a[2..].iter().map(|f| (std::path::Path::new(f).file_name().unwrap().to_string_lossy().to_string(), std::fs::read_to_string(f).unwrap())).collect();
        match c_pre::pre(&files) {
            Ok(p) => println!("{:?}", p.as_str()),
            Err(e) => println!("ERR {e}"),
        }
        return;
    }
    let start = Instant::now();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && (start.elapsed().as_millis() as u64) > s + HANG_MS {
            eprintln!("hang: a case runs for more than {HANG_MS} ms");
            std::process::exit(97);
        }
    });
    let cx = Cx {
        rng: Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ fnv(suite.as_bytes())),
        seed,
        start,
        secs,
        trace: get("--trace"),
        fails: HashMap::new(),
        nfail: 0,
        cases: 0,
        distinct: HashSet::new(),
        samples: vec![],
        group: suite.clone(),
        groups: vec![],
    };
    // a large stack: deep but legitimate inputs must not be confused with a crash of the harness
    let s2 = suite.clone();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut cx = cx;
            run(&s2, &mut cx);
            cx.flush();
        })
        .unwrap();
    if h.join().is_err() {
        let loc = LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default();
        println!("FAIL {{\"key\":\"harness-panic\",\"case\":{},\"detail\":{}}}", js(&suite), js(&loc));
    }
    println!("DONE");
}

fn run(suite: &str, cx: &mut Cx) {
    match suite {
        #[cfg(feature = "common")]
        "C01" => c_common::c01(cx),
        #[cfg(feature = "pbo")]
        "B01" => c_pbo::b01(cx),
        #[cfg(feature = "pbo")]
        "B02" => c_pbo::b02(cx),
        #[cfg(feature = "pbo")]
        "B03" => c_pbo::b03(cx),
        #[cfg(feature = "signing")]
        "S01" => c_signing::s01(cx),
        #[cfg(feature = "signing")]
        "S02" => c_signing::s02(cx),
        #[cfg(feature = "lzo")]
        "L01" => c_lzo::run_l01(cx),
        #[cfg(feature = "lzo")]
        "L02" => c_lzo::run_l02(cx),
        #[cfg(feature = "preprocessor")]
        "P01" => c_pre::run_p01(cx),
        #[cfg(feature = "preprocessor")]
        "P02" => c_pre::run_p02(cx),
        #[cfg(feature = "preprocessor")]
        "P03" => c_pre::run_p03(cx),
        #[cfg(feature = "preprocessor")]
        "P04" => c_pre::run_p04(cx),
        #[cfg(feature = "config")]
        "R01" => c_cfg::run_r01(cx),
        #[cfg(feature = "config")]
        "R02" => c_cfg::run_r02(cx),
        #[cfg(feature = "stringtable")]
        "T01" => c_st::run_t01(cx),
        #[cfg(feature = "paa")]
        "A01" => c_paa::run_a01(cx),
        #[cfg(feature = "p3d")]
        "M01" => c_p3d::run_m01(cx),
        #[cfg(feature = "common")]
        "E01" => c_small::run_e01(cx),
        #[cfg(feature = "common")]
        "V01" => c_small::run_v01(cx),
        #[cfg(feature = "common")]
        "X01" => c_small::run_x01(cx),
        #[cfg(feature = "workspace")]
        "W01" => c_ws::run_w01(cx),
        #[cfg(feature = "workspace")]
        "N01" => c_ws::run_n01(cx),
        #[cfg(feature = "workspace")]
        "W02" => c_loc::run(cx),
        _ => {
            println!("FAIL {{\"key\":\"no-suite\",\"case\":{},\"detail\":\"\"}}", js(suite));
        }
    }
}
