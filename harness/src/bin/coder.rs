//! Entropy coder (C01-C03): histories coded and decoded by the real coder.
use av1enc::bool_coder::BoolCoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::collections::VecDeque;
#[path = "../cdfwalk.rs"]
mod cdfwalk;

fn main() { suite_main(run) }

#[derive(Clone, PartialEq)]
/// a symbol of a table; a literal; bits of probability p/256, coded one by one or as a run that adapts
enum Op { Sym(usize, i32), Lit(Vec<u8>), Bools(i32, Vec<u8>, bool) }
fn js(o: &Op) -> Value { match o { Op::Sym(t, s) => json!({"t": t + 1, "s": s, "v": []}), Op::Lit(v) => json!({"t": 0, "s": 0, "v": v}),
    Op::Bools(p, v, run) => json!({"t": if *run { -2 } else { -1 }, "s": p, "v": v}) } }
fn jops(o: &[Op]) -> Value { Value::Array(o.iter().map(js).collect()) }
type Tab = Vec<i32>;

fn random_table(r: &mut Rng) -> Tab {
    let n = match r.below(4) { 0 => 2, 1 => 2 + r.below(15), _ => 2 + r.below(6) } as usize;
    let mut cuts: std::collections::BTreeSet<i32> = Default::default();
    let style = r.below(5);
    while cuts.len() < n - 1 {
        let x = match style {
            0 => 1 + r.below(32767) as i32,
            1 => 32767 - (r.below(64) as i32),          // everything on symbol 0
            2 => 1 + r.below(64) as i32,                // everything on the last symbol
            3 => 16384 - 20 + r.below(64) as i32,       // tiny probabilities in the middle
            _ => { let b = r.below(14); let y = 1 + (r.below(32767) >> b) as i32; if r.flip() { y } else { 32768 - y } }
        };
        if x > 0 && x < 32768 { cuts.insert(x); }
    }
    let mut t: Tab = cuts.into_iter().collect();
    t.push(32768);
    t.push(match r.below(3) { 0 => 0, 1 => 32, _ => r.below(33) as i32 });
    t
}

fn adapt_gen(t: &mut Tab, s: i32) {
    // only steers the generator of interesting histories; never used for a verdict
    let n = t.len() - 1;
    let rate = 4 + (t[n] > 31) as i32 + (31 - (n as u32).leading_zeros()) as i32;
    let diff = ((32768 - ((n as i32) << 5)) >> rate) << rate;
    let mut tmp = 32;
    for i in 0..n - 1 { if i as i32 == s { tmp += diff } t[i] -= (t[i] - tmp) >> rate; tmp += 32; }
    if t[n] < 32 { t[n] += 1 }
}

/// A history whose code value follows the given bit pattern closely (long runs of ones and zeros:
/// carries and held-back bits), found by decoding the pattern.
fn steer(pattern: &[u8], tabs: &[Tab], r: &mut Rng, n: usize) -> Vec<Op> {
    let mut ts: Vec<Tab> = tabs.to_vec();
    let mut pos = 0;
    let mut bit = || { let b = pattern.get(pos).cloned().unwrap_or((pos % 2) as u8); pos += 1; b as i32 };
    let mut val = 0; for _ in 0..15 { val = val * 2 + bit(); }
    val = 32767 ^ val;
    let mut rng = 32768;
    let mut ops = vec![];
    for _ in 0..n {
        let lit = r.chance(1, 8);
        let k = r.below(ts.len() as u64) as usize;
        let half: Tab = vec![16384 + 0, 32768, 0];
        let mut lv = vec![];
        let reps = if lit { 1 + r.below(9) } else { 1 };
        for _ in 0..reps {
            let t = if lit { &half } else { &ts[k] };
            let (mut s, mut cur, mut prev) = (-1i32, rng, rng);
            loop { s += 1; prev = if s == 0 { rng } else { cur }; cur = ((rng >> 8) * (32768 - t[s as usize])) >> 7; if val >= cur || s as usize == t.len() - 2 { break } }
            rng = prev - cur; val -= cur;
            while rng < 32768 { rng <<= 1; val = (val << 1) + 1 - bit(); }
            if lit { lv.push(s as u8) } else { adapt_gen(&mut ts[k], s); ops.push(Op::Sym(k, s)) }
        }
        if lit { ops.push(Op::Lit(lv)) }
    }
    ops
}

fn random_ops(tabs: &[Tab], r: &mut Rng, n: usize) -> Vec<Op> {
    let style = r.below(6);
    let fav = r.below(tabs.len() as u64) as usize;
    let favs = r.below(16) as i32;
    (0..n).map(|i| {
        if r.chance(1, 10) { let m = r.below(33) as usize; return Op::Lit(match r.below(3) { 0 => vec![1; m], 1 => vec![0; m], _ => r.bits(m) }); }
        if r.chance(1, 12) {
            let m = r.below(14) as usize;
            let p = match r.below(4) { 0 => 1 + r.below(3), 1 => 253 + r.below(3), _ => r.below(256) } as i32;
            return Op::Bools(p, match r.below(3) { 0 => vec![1; m], 1 => vec![0; m], _ => r.bits(m) }, r.flip());
        }
        let k = if style >= 4 { fav } else { r.below(tabs.len() as u64) as usize };
        let n = tabs[k].len() as i32 - 1;
        Op::Sym(k, match style { 0 => 0, 1 => n - 1, 2 => r.below(n as u64) as i32, 3 => (i as i32) % n, 4 => favs % n, _ => if r.chance(1, 12) { r.below(n as u64) as i32 } else { favs % n } })
    }).collect()
}

fn pattern(r: &mut Rng) -> Vec<u8> {
    let mut p = vec![];
    if r.chance(1, 4) { let n = 400; return r.bits(n) }
    while p.len() < 500 {
        let n = match r.below(4) { 0 => r.below(6), 1 => r.below(40), 2 => 15 + r.below(4), _ => r.below(120) } as usize;
        let b = r.below(3) as u8;
        for _ in 0..n { p.push(if b == 2 { r.below(2) as u8 } else { b }) }
        if r.flip() { let m = r.below(4) as usize; p.extend(r.bits(m)); }
    }
    p
}

fn enc(c: &mut BoolCoder, out: &mut Vec<u8>, tabs: &mut Vec<Tab>, ops: &[Op]) {
    c.init_encoder();
    for o in ops { match o {
        Op::Sym(k, s) => c.encode_symbol(*s, out, &mut tabs[*k]),
        Op::Lit(v) => { let x = v.iter().fold(0u64, |a, b| a * 2 + *b as u64); c.encode_literal(out, x, v.len() as u8) }
        Op::Bools(p, v, true) => c.encode_symbols(v, out, *p),
        Op::Bools(p, v, false) => for b in v { c.encode_symbolp(*b, out, *p) },
    } }
    c.exit_encoder(out);
}

fn dec(c: &mut BoolCoder, q: &mut VecDeque<u8>, sz: u32, tabs: &mut Vec<Tab>, shape: &[Op], exit: bool) -> Vec<Op> {
    let mut r = vec![];
    c.init_decoder(q, sz);
    for o in shape { match o {
        Op::Sym(k, _) => r.push(Op::Sym(*k, c.decode_symbol(q, &mut tabs[*k]) as i32)),
        Op::Lit(v) => { let x = c.decode_literal(q, v.len() as u8); r.push(Op::Lit((0..v.len()).rev().map(|i| ((x >> i) & 1) as u8).collect())) }
        Op::Bools(p, v, run) => {
            let mut g = vec![];
            if *run { c.decode_symbols(q, &mut g, v.len() as i32, *p) } else { for _ in v { g.push(c.decode_symbolp(q, *p) as u8) } }
            r.push(Op::Bools(*p, g, *run))
        }
    } }
    if exit { c.exit_decoder(q) }
    r
}

fn errs<T>(x: &Result<T, String>) -> String { match x { Ok(_) => String::new(), Err(e) => e.clone() } }

fn seg(o: &mut Out, r: &mut Rng, kind: &str, tabs: Vec<Tab>, ops: Vec<Op>) {
    let mut c = BoolCoder::new();
    let mut bits = vec![];
    let mut et = tabs.clone();
    let e = guard(|| enc(&mut c, &mut bits, &mut et, &ops));
    let mut dt = tabs.clone();
    let mut q: VecDeque<u8> = bits.iter().cloned().collect();
    // the reader may look beyond the segment; what lies there must not matter
    let tail = match r.below(3) { 0 => vec![0u8; 64], 1 => vec![1u8; 64], _ => r.bits(64) };
    q.extend(tail);
    let mut d = BoolCoder::new();
    let sz = (bits.len() / 8) as u32;
    let dv = if e.is_ok() { guard(|| dec(&mut d, &mut q, sz, &mut dt, &ops, true)) } else { Err("nothing to decode".into()) };
    o.rec(json!({"k": kind, "tabs": tabs, "ops": jops(&ops), "bits": bits, "etabs": et, "err": errs(&e), "derr": errs(&dv),
                 "dops": jops(&dv.unwrap_or_default()), "dtabs": dt}));
}

fn pick_tabs(r: &mut Rng, defaults: &[Tab], m: usize) -> Vec<Tab> {
    (0..m).map(|_| if r.flip() { r.pick(defaults).clone() } else { random_table(r) }).collect()
}

fn run(a: &Args) {
    let cdf = Box::new(av1enc::verif::cdf::default_cdf);
    let named = cdfwalk::tables(&cdf);
    let ok = |t: &[i32]| t.len() >= 3 && t[0] > 0 && (0..t.len() - 2).all(|k| t[k] < t[k + 1]) && t[t.len() - 2] == 32768 && t[t.len() - 1] == 0;
    // tables used for coding are well-formed ones; "default" records show every built-in table as it is
    let defaults: Vec<Tab> = named.iter().map(|(_, t)| t.to_vec()).filter(|t| ok(t)).collect();
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 1);
    match a.extra.as_str() {
        "c01" => for i in 0..a.n {
            let m = 1 + r.below(4) as usize;
            let tabs = pick_tabs(&mut r, &defaults, m);
            let len = match i % 5 { 0 => r.below(6), 1 => r.below(30), _ => 20 + r.below(90) } as usize;
            let ops = if i % 2 == 0 { let p = pattern(&mut r); steer(&p, &tabs, &mut r, len) } else { random_ops(&tabs, &mut r, len) };
            if i % 4 == 3 {
                // raw bytes into the decoder
                let nb = 40usize;
                let p: Vec<u8> = { let mut p = pattern(&mut r); p.truncate(nb * 8); while p.len() < nb * 8 { p.push(0) } p };
                // as many operations as the bytes certainly last for: at most 16 bits per symbol
                let shape: Vec<Op> = { let mut left = nb * 8 - 15; ops.iter().cloned().take_while(|o| { let need = match o { Op::Sym(..) => 16, Op::Lit(v) => 2 * v.len(), Op::Bools(_, v, _) => 16 * v.len() }; if need <= left { left -= need; true } else { left = 0; false } }).collect() };
                let mut q: VecDeque<u8> = p.iter().cloned().collect();
                let mut dt = tabs.clone();
                let mut d = BoolCoder::new();
                let dv = guard(|| dec(&mut d, &mut q, nb as u32, &mut dt, &shape, false));
                o.rec(json!({"k": "raw", "tabs": tabs, "bits": p, "derr": errs(&dv), "ops": jops(&dv.unwrap_or_default()), "dtabs": dt}));
            } else { seg(&mut o, &mut r, "seg", tabs, ops) }
        },
        "c02" => {
            for (name, t) in &named { o.rec(json!({"k": "default", "name": name, "t": t})) }
            let one = |o: &mut Out, name: &str, before: &Tab, s: i32| -> Tab {
                let mut c = BoolCoder::new();
                let mut bits = vec![];
                let mut t = before.clone();
                let e = guard(|| { c.init_encoder(); c.encode_symbol(s, &mut bits, &mut t); c.exit_encoder(&mut bits) });
                let mut q: VecDeque<u8> = bits.iter().cloned().chain(vec![0; 32]).collect();
                let mut dt = before.clone();
                let mut d = BoolCoder::new();
                let dv = guard(|| { d.init_decoder(&mut q, (bits.len() / 8) as u32); d.decode_symbol(&mut q, &mut dt) as i64 });
                o.rec(json!({"k": "adapt", "name": name, "before": before, "s": s, "after": t, "err": errs(&e), "dafter": dt, "ds": dv.unwrap_or(-1)}));
                t
            };
            // every alphabet size, every symbol, counters around the rate change, extreme tables
            for n in 2..=16i32 { for s in 0..n { for cnt in [0, 1, 30, 31, 32] {
                for style in 0..4 {
                    let mut t: Tab = (1..n).map(|i| match style { 0 => 32768 * i / n, 1 => i, 2 => 32768 - n + i, _ => 16384 - 8 + i }).collect();
                    t.push(32768); t.push(cnt);
                    one(&mut o, "built", &t, s);
                } } } }
            // long histories from default and random tables
            for i in 0..a.n {
                let mut t = if i % 3 == 0 { random_table(&mut r) } else { r.pick(&defaults).clone() };
                let n = t.len() as i32 - 1;
                let fav = r.below(n as u64) as i32;
                for j in 0..60 {
                    let s = match i % 4 { 0 => fav, 1 => r.below(n as u64) as i32, 2 => if j < 45 { fav } else { r.below(n as u64) as i32 }, _ => j % n };
                    let u = one(&mut o, "history", &t, s);
                    if !(u.len() == t.len() && u[0] > 0 && (0..u.len() - 2).all(|k| u[k] < u[k + 1])) { break }
                    t = u;
                }
            }
            // interleavings: only the table used changes
            for _ in 0..a.n {
                let m = 1 + r.below(4) as usize;
                let tabs = pick_tabs(&mut r, &defaults, m);
                let len = 10 + r.below(80) as usize;
                let ops = random_ops(&tabs, &mut r, len);
                seg(&mut o, &mut r, "segtab", tabs, ops)
            }
        }
        "c03" => for _ in 0..a.n {
            let mut c = BoolCoder::new();
            let m = 1 + r.below(5) as usize;
            let (mut segs, mut alone, mut jo, mut jt, mut all) = (vec![], vec![], vec![], vec![], vec![]);
            let mut err = String::new();
            let mut plan = vec![];
            for _ in 0..m {
                let nt = 1 + r.below(3) as usize;
                let tabs = pick_tabs(&mut r, &defaults, nt);
                let len = match r.below(3) { 0 => r.below(4), 1 => r.below(20), _ => r.below(60) } as usize;
                let ops = if r.flip() { let p = pattern(&mut r); steer(&p, &tabs, &mut r, len) } else { random_ops(&tabs, &mut r, len) };
                let mut out = { let n = r.below(20) as usize; r.bits(n) };      // coders append to whatever is there
                let pre = out.len();
                let mut t1 = tabs.clone();
                let e = guard(|| enc(&mut c, &mut out, &mut t1, &ops));
                let mut f = BoolCoder::new();
                let mut out2 = vec![];
                let mut t2 = tabs.clone();
                let e2 = guard(|| enc(&mut f, &mut out2, &mut t2, &ops));
                if e.is_err() { err = errs(&e) } else if e2.is_err() { err = errs(&e2) }
                let s = if out.len() >= pre { out[pre..].to_vec() } else { vec![] };
                all.extend(s.iter().cloned());
                segs.push(s); alone.push(out2); jo.push(jops(&ops)); jt.push(json!(tabs));
                plan.push((tabs, ops));
            }
            // one decoder object reads the segments back to back; it may stop early in each
            let mut q: VecDeque<u8> = all.iter().cloned().collect();
            let tail = r.bits(40); q.extend(tail);
            let mut d = BoolCoder::new();
            let (mut used, mut dops) = (vec![], vec![]);
            let mut derr = String::new();
            if err.is_empty() { for (k, (tabs, ops)) in plan.iter().enumerate() {
                let before = q.len();
                let take = if r.flip() { ops.len() } else { r.below(ops.len() as u64 + 1) as usize };
                let mut t = tabs.clone();
                let sz = (segs[k].len() / 8) as u32;
                let v = guard(|| dec(&mut d, &mut q, sz, &mut t, &ops[..take], true));
                if v.is_err() { derr = errs(&v); }
                used.push(before - q.len()); dops.push(jops(&v.unwrap_or_default()));
            } }
            o.rec(json!({"k": "chain", "segs": segs, "alone": alone, "ops": jo, "tabs": jt, "err": err, "derr": derr, "used": used, "dops": dops}));
        },
        x => panic!("unknown part {}", x),
    }
}
