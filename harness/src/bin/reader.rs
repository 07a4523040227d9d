//! Frame reader (C13): delivery schedules replayed into the real reader, in a child process that
//! reads either a regular file or a pipe (as standard input, and opened as a file).
use av1enc::verif::binary_reader::BinaryReader;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
use std::time::{Duration, Instant};

fn main() { suite_main(run) }

fn byte_at(k: usize) -> u8 { ((k * 37 + (k / 256) * 11 + k / 7) % 256) as u8 }

extern "C" {
    fn signal(sig: i32, handler: extern "C" fn(i32)) -> usize;
    fn siginterrupt(sig: i32, flag: i32) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(thread: usize, sig: i32) -> i32;
}
extern "C" fn nothing(_: i32) {}
const SIGUSR1: i32 = 10;

/// Sends signals to this thread, each of which interrupts a blocked read, until the flag is set.
fn interrupt(stop: Arc<AtomicBool>) -> std::thread::JoinHandle<()> {
    let me = unsafe { signal(SIGUSR1, nothing); siginterrupt(SIGUSR1, 1); pthread_self() };
    std::thread::spawn(move || while !stop.load(Ordering::SeqCst) {
        unsafe { pthread_kill(me, SIGUSR1); }
        std::thread::sleep(Duration::from_micros(300));
    })
}

fn child(a: &Args) {
    let stop = Arc::new(AtomicBool::new(false));
    let helper = if a.extra.ends_with("-int") { Some(interrupt(stop.clone())) } else { None };
    let planes: Vec<usize> = serde_json::from_str(&a.out).unwrap();
    let stdin = std::io::stdin();
    let mut rd = if a.extra.starts_with("child-std") { BinaryReader::standard(&stdin) } else { BinaryReader::file(a.input.as_ref().unwrap()).unwrap() };
    let mut got = vec![];
    let e = guard(|| for p in planes {
        let mut v: Vec<i16> = vec![-1; p];
        let n = rd.read_to_vec(&mut v).unwrap();
        // all samples of small planes; both ends, the neighbourhood of powers of two and a grid of large ones
        let at: Vec<usize> = if v.len() <= 60000 { (0..v.len()).collect() } else {
            (0..v.len()).filter(|&j| j < 64 || j + 64 >= v.len() || j % (v.len() / 701) == 0 || (j + 2).is_power_of_two() || (j + 1).is_power_of_two() || j.is_power_of_two()).collect() };
        let s: Vec<(usize, i16)> = at.into_iter().map(|j| (j, v[j])).collect();
        got.push(json!({"n": n, "size": v.len(), "s": s}));
    });
    stop.store(true, Ordering::SeqCst);
    if let Some(h) = helper { h.join().unwrap(); }
    println!("{}", json!({"got": got, "err": e.err().unwrap_or_default()}));
}

fn one(o: &mut Out, a: &Args, mode: &str, planes: &[usize], pieces: &[usize]) {
    let len: usize = pieces.iter().sum();
    let data: Vec<u8> = (0..len).map(byte_at).collect();
    let path = format!("{}/reader.bin", a.dir);
    let src = match mode { "regular" => { std::fs::write(&path, &data).unwrap(); path.clone() } _ => "/dev/stdin".to_string() };
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["--extra", match mode { "standard" => "child-std", "standard-interrupted" => "child-std-int", "pipe-interrupted" => "child-file-int", _ => "child-file" }, "--in", &src, "--out", &serde_json::to_string(planes).unwrap()])
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut si = c.stdin.take().unwrap();
    let mut so = c.stdout.take().unwrap();
    let t = std::thread::spawn(move || { let mut s = String::new(); let _ = so.read_to_string(&mut s); s });
    if mode != "regular" {
        let mut p = 0;
        for n in pieces {
            if si.write_all(&data[p..p + n]).is_err() { break }
            p += n;
            std::thread::sleep(Duration::from_micros(if len > 1000 { 3000 } else { 1200 }));
        }
    }
    drop(si);
    let t0 = Instant::now();
    let mut timed = false;
    loop {
        if let Ok(Some(_)) = c.try_wait() { break }
        if t0.elapsed() > Duration::from_secs(90) { let _ = c.kill(); let _ = c.wait(); timed = true; break }
        std::thread::sleep(Duration::from_micros(200));
    }
    let s = t.join().unwrap();
    let r: Value = serde_json::from_str(s.trim()).unwrap_or(json!({"got": [], "err": if timed { "did not terminate" } else { "died" }}));
    o.rec(json!({"k": mode, "planes": planes, "pieces": pieces, "len": len, "got": r["got"], "err": r["err"]}));
}

fn run(a: &Args) {
    if a.extra.starts_with("child") { return child(a) }
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 13);
    let cases = a.cases();
    let keep = a.n.min(cases.len());
    // every case when there are few enough, otherwise a seeded selection of them
    let mut idx: Vec<usize> = (0..cases.len()).collect();
    for i in 0..keep { let j = i + r.below((idx.len() - i) as u64) as usize; idx.swap(i, j); }
    for (n, &i) in idx[..keep].iter().enumerate() {
        let v = |k: &str| -> Vec<usize> { cases[i][k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
        let unit = match n % 8 { 0 => 700, 1 => 2048, _ => 1 };
        let planes: Vec<usize> = v("planes").iter().map(|x| x * unit).collect();
        let pieces: Vec<usize> = v("pieces").iter().map(|x| x * unit).collect();
        one(&mut o, a, ["pipe", "standard", "pipe-interrupted", "standard", "pipe", "standard-interrupted"][(n / 8 + n) % 6], &planes, &pieces);
    }
    // regular files around the size of the read buffer (8192)
    for &(p, frames) in &[(8191usize, 2usize), (8192, 2), (8193, 1), (6336, 2), (4096, 3), (1, 3), (25344, 1), (3000, 3)] {
        for &cut in &[0usize, 1, 700] {
            let planes: Vec<usize> = (0..frames).flat_map(|_| vec![p, (p + 3) / 4, (p + 3) / 4]).collect();
            let len = planes.iter().sum::<usize>();
            one(&mut o, a, "regular", &planes, &[len - cut.min(len)]);
        }
    }
    // planes of the largest frames, as files
    for &(w, h) in &[(2049usize, 2048usize), (4097, 2049), (8191, 8191)] {
        let planes = vec![w * h, (w / 2 + w % 2) * (h / 2 + h % 2), (w / 2 + w % 2) * (h / 2 + h % 2)];
        let len = planes.iter().sum::<usize>();
        one(&mut o, a, "regular", &planes, &[len]);
        one(&mut o, a, "standard", &planes[1..], &[len - planes[0] - 5]);
    }
    // larger pipes in random pieces
    for _ in 0..(a.n / 20) {
        let planes: Vec<usize> = { let y = 1 + r.below(9000) as usize; vec![y, y / 4, y / 4] };
        let total = planes.iter().sum::<usize>() * (1 + r.below(3) as usize) / 2;
        let mut left = total; let mut pieces = vec![];
        while left > 0 { let m = (1 + r.below(1 + total as u64 / 4) as usize).min(left); pieces.push(m); left -= m; }
        let m = ["pipe", "standard", "pipe-interrupted", "standard-interrupted"][r.below(4) as usize];
        one(&mut o, a, m, &planes, &pieces);
    }
    let _ = std::fs::remove_file(format!("{}/reader.bin", a.dir));
}
