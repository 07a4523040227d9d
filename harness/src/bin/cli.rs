//! Command line (C11, C12): argument lists given to the real parser and validator.
use av1enc::verif::option::{CommandOption, Config};
use av1enc_verif::*;
use serde_json::{json, Value};

fn main() { suite_main(run) }

fn chars(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c.to_string())).collect()) }
fn num<T: ToString>(x: Option<T>) -> Value { match x { Some(v) => chars(&v.to_string()), None => json!(["none"]) } }
fn st(x: &Option<String>) -> Value { match x { Some(v) => chars(v), None => json!(["none"]) } }

fn one(o: &mut Out, kind: &str, args: Vec<String>) {
    let mut cfg = Config::default();
    let a2 = args.clone();
    let r = guard(|| { CommandOption::init_config(&mut cfg); CommandOption::parse(a2, &mut cfg).is_ok() });
    let v = match r { Ok(true) => guard(|| CommandOption::validate_config(&cfg).is_ok()), _ => Ok(false) };
    let (res, msg) = match (&r, &v) { (Err(e), _) | (_, Err(e)) => ("panic", e.clone()), (Ok(true), _) => ("ok", String::new()), _ => ("err", String::new()) };
    let rate = cfg.framerate;
    o.rec(json!({"k": kind, "args": args.iter().map(|s| chars(s)).collect::<Vec<_>>(), "res": res, "msg": msg, "valid": v.unwrap_or(false),
        "cfg": {"input": st(&cfg.input), "output": st(&cfg.output), "frames": num(cfg.frames), "width": num(cfg.frame_width), "height": num(cfg.frame_height),
                "rn": num(rate.map(|r| *r.numer())), "rd": num(rate.map(|r| *r.denom()))}}));
}

fn run(a: &Args) {
    let mut o = a.out();
    let kind = a.extra.as_str();
    if kind == "long" {
        // -fr 1 -fr 2 ... -fr n, then one more option
        for n in [1, 100, a.n] {
            let mut args: Vec<String> = (1..=n).flat_map(|k| vec!["-fr".to_string(), k.to_string()]).collect();
            args.push("--size".to_string());
            args.push("16x8".to_string());
            let mut cfg = Config::default();
            let r = guard(|| { CommandOption::init_config(&mut cfg); CommandOption::parse(args, &mut cfg).is_ok() });
            o.rec(json!({"k": kind, "n": n, "res": match r { Ok(true) => "ok", Ok(false) => "err", _ => "panic" }, "frames": num(cfg.frames), "width": num(cfg.frame_width), "height": num(cfg.frame_height)}));
        }
        return
    }
    for c in a.cases() {
        let args: Vec<String> = c.as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect()).collect();
        one(&mut o, kind, args);
    }
    // random lists: real tokens, mutated tokens, odd characters; never help, which ends the process
    let mut r = Rng::new(a.seed, 11);
    let vocab = ["-i", "--input", "-o", "--output", "-fr", "--frames", "-s", "--size", "-r", "--framerate", "16x8", "25", "30/1", "a", "stdin", "stdout", "1x1", "8191x8191", "8192x1", "0", "007", "+5", "x", "/", "1/0", "3/4"];
    let odd = ['-', 'x', '/', ' ', '0', '9', '+', 'é', '漢', '=', '\u{0}', 'i', 's', 'r', '.'];
    for _ in 0..a.n {
        let m = r.below(9);
        let args: Vec<String> = (0..m).map(|j| {
            let mut t: String = if j % 2 == 0 && r.chance(4, 5) { r.pick(&vocab[..10]).to_string() } else { r.pick(&vocab).to_string() };
            for _ in 0..(if r.chance(1, 6) { 1 + r.below(2) } else { 0 }) {
                let mut cs: Vec<char> = t.chars().collect();
                let p = r.below(cs.len() as u64 + 1) as usize;
                match r.below(3) { 0 => cs.insert(p, *r.pick(&odd)), 1 => { if p < cs.len() { cs.remove(p); } } _ => { if p < cs.len() { cs[p] = *r.pick(&odd) } } }
                t = cs.into_iter().collect();
            }
            t
        }).collect();
        // every setting present, with numbers of every magnitude
        let args = if (kind == "valid" || kind == "parse") && r.chance(1, if kind == "valid" { 2 } else { 6 }) {
            let mut n = || -> u64 { let b = r.below(65); let x = if b == 64 { u64::MAX } else { 1u64 << b }; match r.below(4) { 0 => x, 1 => x - 1, 2 => x.wrapping_add(1), _ => r.below(x.max(1)) } };
            let (w, h, p, q, f) = (n(), n(), n(), n(), n());
            let (w, h) = if r.chance(1, 4) { (w, h) } else { (w % 8194, h % 8194) };
            let mut v: Vec<String> = ["-i", "a", "-o", "b"].iter().map(|s| s.to_string()).collect();
            v.extend(vec!["-s".to_string(), format!("{}x{}", w, h)]);
            if r.chance(3, 4) { v.extend(vec!["-r".to_string(), if r.chance(1, 5) { p.to_string() } else { format!("{}/{}", p, q) }]); }
            if r.chance(3, 4) { v.extend(vec!["-fr".to_string(), f.to_string()]); }
            v
        } else { args };
        if args.iter().any(|t| t == "-h" || t == "--help") { continue }
        one(&mut o, kind, args);
    }
}
