//! Shared part of the counterexample search: random numbers, the search loop, replay, reporting.
//! A property is a `Prop`: cases are generated from (seed, index), executed against the real code and compared with
//! an independent oracle. Case 0.. are corner cases, later ones random.
#![allow(dead_code)]
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// a number with a random number of significant bits
    pub fn bits(&mut self, max: u32) -> u64 {
        let n = self.below(max as u64 + 1) as u32;
        if n == 0 { 0 } else { self.u64() >> (64 - n) }
    }
    pub fn f64_bits(&mut self) -> u64 {
        match self.below(8) {
            0 => *self.pick(&[0u64, 1 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), 1, u64::MAX,
                0x7ff0_0000_0000_0001, 0xfff8_0000_dead_beef, 1f64.to_bits(), (-1f64).to_bits(), f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits()]),
            1 => (self.below(1000) as f64).to_bits(),
            2 => ((self.below(2_000_000) as f64 - 1e6) / 128.0).to_bits(),
            3 => self.bits(64),
            _ => self.u64(),
        }
    }
    pub fn finite(&mut self) -> f64 {
        loop {
            let f = f64::from_bits(self.f64_bits());
            if f.is_finite() {
                return f;
            }
        }
    }
    pub fn text(&mut self) -> String {
        const WORDS: &[&str] = &["", "a", "b", "ab", "value", "=", ",", "\\", "\"", "é", "日本", "1", "1,2", "x=y", "LR", "L", "I", "I1", "TS1", " ", "\n", "R", "a,b=c", "\\,", ",\\", "\u{0}", "🦀", "R\\", "{}", "{a=\"b\"}", ";", "/", "x\\", "x\\\\", "=,", ",=", "A", "Value", " a", "a ", "\t", "0", "00", "-", "%2C", "*", "."];
        if self.chance(1, 40) {
            // any character at all: controls, byte-order marks, zero-width, combining, private and the last ones of the planes
            const ODD: &[char] = &['\u{feff}', '\u{200b}', '\u{301}', '\u{2028}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ff}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{e000}', '\u{1b}', '\r', '\u{1}', '\'', '$', '<', '|', '~', '^', '+', '#', '&', ':'];
            let n = 1 + self.below(4);
            return (0..n).map(|_| if self.chance(1, 2) { *self.pick(ODD) } else { std::char::from_u32(self.below(0x110000) as u32).unwrap_or('\u{d7ff}') }).collect();
        }
        if self.chance(1, 200) {
            let k = self.below(13);
            let n = 1 + self.below(1 << k);
            return (0..n).map(|_| *self.pick(&['a', 'b', ',', '=', '\\', '1'])).collect();
        }
        match self.below(4) {
            0 => (*self.pick(&["a", "b", "c", "v1", "v2"])).to_string(),
            1 => (*self.pick(WORDS)).to_string(),
            2 => { let n = self.below(4); (0..n).map(|_| *self.pick(WORDS)).collect() }
            _ => { let n = self.below(6); (0..n).map(|_| *self.pick(&['a', 'b', ',', '=', '\\', 'R', 'L', 'I', '1', 'é'])).collect() }
        }
    }
    pub fn name(&mut self) -> String {
        const FIRST: &[&str] = &["a", "b", "c", "R", "L", "I", "_", "LR", "RL", "Ra", "Z", "abc", "I1", "TS", "job", "__name__", "instance"];
        let mut s = (*self.pick(FIRST)).to_string();
        if self.chance(1, 4) {
            s.push_str(self.pick(&["a", "1", "_", "R", "x9"]));
        }
        if self.chance(1, 12) { s = self.other_case(&s); }
        if self.chance(1, 60) { let n = 1 << self.below(10); while s.len() < n { s.push_str(self.pick(&["a", "1", "_", "R", "x9", "long_name"])); } }
        s
    }
    /// a letter, or all letters, in the other case
    pub fn other_case(&mut self, s: &str) -> String {
        let k = self.usize(s.len() + 1);
        s.chars().enumerate().map(|(i, c)| if i == k || k == s.len() { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
    }
}

pub enum Out {
    /// the property held; true if the case exercised something
    Held(bool),
    Broken(String),
}

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + Clone + Send + 'static;
    const NAME: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const THREADS: usize = 8;
    const CASE_SECS: u64 = 60;
    /// cases one process may run: databases leave threads behind
    const PER_RUN: usize = usize::MAX;
    fn make(i: u64, r: &mut Rng) -> Self::Case;
    fn check(c: &Self::Case) -> Out;
    /// smaller cases, most promising first
    fn shrink(_c: &Self::Case) -> Vec<Self::Case> { vec![] }
}

fn run_case<P: Prop>(c: &P::Case) -> Out {
    match catch_unwind(AssertUnwindSafe(|| P::check(c))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Broken(format!("panic: {}", m))
        }
    }
}

fn report(kind: &str, out: Option<&str>, v: serde_json::Value) {
    if let Some(p) = out {
        std::fs::write(p, serde_json::to_string_pretty(&v).unwrap()).ok();
    }
    println!("VXH {} {}", kind, serde_json::to_string(&v).unwrap());
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// vec shrinking: halves, then single removals
pub fn shrink_vec<T: Clone>(v: &Vec<T>) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = vec![];
    if n > 1 {
        out.push(v[..n / 2].to_vec());
        out.push(v[n / 2..].to_vec());
    }
    for i in 0..n.min(40) {
        let mut w = v.clone();
        w.remove(n - 1 - i);
        out.push(w);
    }
    out
}

pub fn run<P: Prop>() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let c: P::Case = serde_json::from_value(v["case"].clone()).unwrap();
        match run_case::<P>(&c) {
            Out::Held(_) => { println!("VXH held {{}}"); std::process::exit(0) }
            Out::Broken(m) => { println!("VXH broken {}", serde_json::json!({ "what": m })); std::process::exit(1) }
        }
    }
    let seed: u64 = a[2].parse().unwrap();
    if a.get(1).map(|s| s.as_str()) == Some("one") {
        // the case on its own: does the process outlive it?
        let i: u64 = a[3].parse().unwrap();
        let c = P::make(i, &mut Rng::new(seed, i));
        let v = serde_json::json!({"harness": P::NAME, "index": i, "seed": seed, "what": "the process dies", "case": c, "evaluations": 1});
        report("broken", a.get(4).map(|s| s.as_str()), v);
        let c2 = c.clone();
        match std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_case::<P>(&c2)).unwrap().join().unwrap() {
            Out::Held(_) => { println!("VXH held {{}}"); std::process::exit(0) }
            Out::Broken(m) => {
                report("broken", a.get(4).map(|s| s.as_str()), serde_json::json!({"harness": P::NAME, "index": i, "seed": seed, "what": m, "case": c, "evaluations": 1}));
                std::process::exit(1)
            }
        }
    }
    let secs: f64 = a[3].parse().unwrap();
    let max: usize = a[4].parse().unwrap();
    let out = a.get(5).cloned();
    let start: usize = a.get(6).map(|s| s.parse().unwrap()).unwrap_or(0);
    let (end, max) = (max, max.min(start.saturating_add(P::PER_RUN)));
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicUsize::new(0));
    let next = Arc::new(AtomicUsize::new(start));
    let distinct = Arc::new(Mutex::new(HashSet::<u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::<serde_json::Value>::new()));
    let found = Arc::new(Mutex::new(None::<(usize, String, P::Case)>));
    let current: Arc<Vec<Mutex<Option<(Instant, usize, P::Case)>>>> = Arc::new((0..P::THREADS).map(|_| Mutex::new(None)).collect());
    let running = Arc::new(AtomicUsize::new(P::THREADS));
    // which cases are being run, for the case that one of them takes the process down
    let marks = out.as_ref().and_then(|o| std::fs::File::create(format!("{}.running", o)).ok()).map(Arc::new);
    for t in 0..P::THREADS {
        let marks = marks.clone();
        let (stop, evals, next, distinct, samples, found, current, running) =
            (stop.clone(), evals.clone(), next.clone(), distinct.clone(), samples.clone(), found.clone(), current.clone(), running.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if stop.load(Ordering::SeqCst) || i >= max || t0.elapsed().as_secs_f64() > secs {
                    break;
                }
                let mut r = Rng::new(seed, i as u64);
                let c = P::make(i as u64, &mut r);
                *current[t].lock().unwrap() = Some((Instant::now(), i, c.clone()));
                if let Some(f) = &marks { std::os::unix::fs::FileExt::write_at(&**f, &(i as u64 + 1).to_le_bytes(), t as u64 * 8).ok(); }
                let o = run_case::<P>(&c);
                *current[t].lock().unwrap() = None;
                evals.fetch_add(1, Ordering::SeqCst);
                match o {
                    Out::Held(nt) => {
                        if nt {
                            let s = serde_json::to_string(&c).unwrap();
                            distinct.lock().unwrap().insert(fnv(&s));
                            let mut sm = samples.lock().unwrap();
                            if sm.len() < 3 && s.len() < 600 {
                                sm.push(serde_json::from_str(&s).unwrap());
                            }
                        }
                    }
                    Out::Broken(m) => {
                        let mut f = found.lock().unwrap();
                        if f.is_none() || f.as_ref().unwrap().0 > i {
                            *f = Some((i, m, c));
                        }
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            }
            running.fetch_sub(1, Ordering::SeqCst);
        }).unwrap();
    }
    while running.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        for s in current.iter() {
            let hung = match &*s.lock().unwrap() {
                Some((at, i, c)) if at.elapsed().as_secs() > P::CASE_SECS => Some((*i, c.clone())),
                _ => None,
            };
            if let Some((i, c)) = hung {
                report("broken", out.as_ref().map(|s| s.as_str()), serde_json::json!({
                    "harness": P::NAME, "index": i, "seed": seed, "what": format!("no answer after {} s", P::CASE_SECS), "case": c,
                    "evaluations": evals.load(Ordering::SeqCst)}));
                std::process::exit(1);
            }
        }
    }
    let stats = |v: &mut serde_json::Value| {
        v["evaluations"] = evals.load(Ordering::SeqCst).into();
        v["distinct_nontrivial"] = distinct.lock().unwrap().len().into();
        v["rule"] = P::RULE.into();
        v["samples"] = serde_json::Value::Array(samples.lock().unwrap().clone());
    };
    let f = found.lock().unwrap().take();
    if let Some((i, m, c)) = f {
        let full = |c: &P::Case, m: &String| {
            let mut v = serde_json::json!({"harness": P::NAME, "index": i, "seed": seed, "what": m, "case": c});
            stats(&mut v);
            report("broken", out.as_ref().map(|s| s.as_str()), v);
        };
        full(&c, &m);
        // make it smaller; a smaller one may hang or take the process down
        let best = Arc::new(Mutex::new((c.clone(), m)));
        let b2 = best.clone();
        let j = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut c = c;
            let limit = Instant::now();
            'outer: loop {
                for s in P::shrink(&c) {
                    if limit.elapsed().as_secs() > 10 { break 'outer; }
                    if let Out::Broken(m) = run_case::<P>(&s) {
                        *b2.lock().unwrap() = (s.clone(), m);
                        c = s;
                        continue 'outer;
                    }
                }
                break;
            }
        }).unwrap();
        let limit = Instant::now();
        while !j.is_finished() && limit.elapsed().as_secs() < 25 { std::thread::sleep(Duration::from_millis(5)); }
        let g = best.lock().unwrap();
        full(&g.0, &g.1);
        std::process::exit(1);
    }
    let mut v = serde_json::json!({"harness": P::NAME, "seed": seed});
    if max < end && next.load(Ordering::SeqCst) >= max { v["next"] = max.into(); }
    stats(&mut v);
    report("held", None, v);
    std::process::exit(0);
}

#[macro_export]
macro_rules! vx_assert {
    ($c:expr, $($a:tt)*) => { if !$c { return crate::vx_common::Out::Broken(format!($($a)*)); } };
}
