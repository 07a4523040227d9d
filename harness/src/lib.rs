//! Common part of the conformance harness.  The harness drives the real av1enc code and records what
//! it did as NDJSON; it never judges anything, the TLA+ trace specifications in /verif/spec do.
//! One binary per suite, so that each depends only on the part of the code it drives.
use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Args { pub seed: u64, pub n: usize, pub input: Option<String>, pub out: String, pub dir: String, pub extra: String }

impl Args {
    pub fn parse() -> Args {
        let mut a = Args { seed: 1, n: 100, input: None, out: String::new(), dir: String::new(), extra: String::new() };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let v = it.next().expect("value");
            match k.as_str() {
                "--seed" => a.seed = v.parse().unwrap(),
                "--n" => a.n = v.parse().unwrap(),
                "--in" => a.input = Some(v),
                "--out" => a.out = v,
                "--dir" => a.dir = v,
                "--extra" => a.extra = v,
                _ => panic!("unknown argument {}", k),
            }
        }
        a
    }
    pub fn out(&self) -> Out { Out { w: BufWriter::new(std::fs::File::create(&self.out).unwrap()), id: 0 } }
    pub fn cases(&self) -> Vec<Value> {
        let f = std::fs::File::open(self.input.as_ref().expect("--in")).unwrap();
        BufReader::new(f).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty())
            .map(|l| serde_json::from_str(&l).unwrap()).collect()
    }
}

pub struct Out { w: BufWriter<std::fs::File>, pub id: u64 }
impl Out {
    /// Writes one record, adding its id.
    pub fn rec(&mut self, mut v: Value) {
        self.id += 1;
        v.as_object_mut().unwrap().insert("id".into(), Value::from(self.id));
        writeln!(self.w, "{}", v).unwrap();
    }
}
impl Drop for Out { fn drop(&mut self) { self.w.flush().unwrap(); } }

/// SplitMix64
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn bits(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| (self.next() & 1) as u8).collect() }
}

/// Bits of v, most significant first, no leading zeros.
pub fn big(v: u64) -> Vec<u8> {
    let n = 64 - v.leading_zeros();
    (0..n).rev().map(|i| ((v >> i) & 1) as u8).collect()
}

/// Runs f; Err(message) if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { format!("panic: {}", s) }
        else if let Some(s) = e.downcast_ref::<String>() { format!("panic: {}", s) }
        else { "panic".to_string() }
    })
}

/// Runs a suite on a large stack (table copies) with silent panics: a panic of the code under test is data.
pub fn suite_main(f: fn(&Args)) {
    let a = Args::parse();
    let done = if a.extra.starts_with("child") { None } else { Some(format!("{}.done", a.out)) };
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || f(&a)).unwrap();
    if let Err(e) = h.join() {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
        eprintln!("panic outside a recorded call: {}", m);
        std::process::exit(3)
    }
    // shows the driver that the trace is complete (the code under test can end the process)
    if let Some(p) = done { std::fs::write(p, "").unwrap(); }
}
