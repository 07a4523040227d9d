//! Number codes (C04): values written by the real writers, read back by the real readers.
use av1enc_verif::*;
use av1enc::bool_coder::BoolCoder;
use serde_json::json;
use std::collections::{BTreeSet, VecDeque};

struct Case { k: &'static str, v: u64, neg: bool, n: u64 }

fn emit(o: &mut Out, r: &mut Rng, c: &Case) {
    let plen = r.below(9) as usize;
    let pre = r.bits(plen);
    let tlen = r.below(12) as usize;
    let tail = match r.below(3) { 0 => vec![0u8; tlen], 1 => vec![1u8; tlen], _ => r.bits(tlen) };
    let mut bits = pre.clone();
    let mut coder = BoolCoder::new();
    let e = guard(|| match c.k {
        "f" => coder.push_bits_with_size(&mut bits, c.v as u32, c.n as u8),
        "uvlc" => coder.encode_uvlc(&mut bits, c.v as u32),
        "le" => coder.encode_le(&mut bits, c.v, c.n as u8),
        "leb" => coder.encode_leb128(&mut bits, c.v),
        "su" => coder.encode_su(&mut bits, if c.neg { (c.v as i64).wrapping_neg() } else { c.v as i64 }, c.n as u8),
        "ns" => coder.encode_ns(&mut bits, c.v, c.n),
        _ => unreachable!(),
    });
    let out = bits.clone();
    // the reader starts where the code starts (after the prefix)
    let mut q: VecDeque<u8> = bits[plen.min(bits.len())..].iter().cloned().chain(tail.iter().cloned()).collect();
    let mut dneg = false;
    let d: Result<u64, String> = if e.is_err() { Err("no encoding".into()) } else if c.k == "uvlc" && !q.contains(&1) {
        Err("reader would not terminate".into())
    } else {
        guard(|| match c.k {
            "f" => { let mut v = 0u64; for _ in 0..c.n { v = v * 2 + q.pop_front().unwrap() as u64; } v }
            "uvlc" => coder.decode_uvlc(&mut q) as u64,
            "le" => coder.decode_le(&mut q, c.n as u8),
            "leb" => coder.decode_leb128(&mut q),
            "su" => { let x = coder.decode_su(&mut q, c.n as u8); dneg = x < 0; x.unsigned_abs() }
            "ns" => coder.decode_ns(&mut q, c.n),
            _ => unreachable!(),
        })
    };
    o.rec(json!({
        "k": c.k, "v": big(c.v), "neg": c.neg, "n": big(c.n), "pre": pre, "out": out, "tail": tail,
        "dv": match &d { Ok(x) => big(*x), Err(_) => vec![] }, "dneg": dneg,
        "left": q.iter().cloned().collect::<Vec<u8>>(),
        "err": match (&e, &d) { (Err(m), _) => m.clone(), (_, Err(m)) => m.clone(), _ => String::new() },
    }));
}

fn around(limit: u64, r: &mut Rng, extra: usize) -> Vec<u64> {
    // all small values, neighbourhoods of powers of two, the top of the range, random ones; all < limit
    let mut s = BTreeSet::new();
    for v in 0..40u64 { s.insert(v); }
    for b in 0..64u32 { let p = 1u64 << b; for v in [p - 1, p, p + 1] { s.insert(v); } }
    for j in 1..4u64 { s.insert(limit.wrapping_sub(j)); }
    for _ in 0..extra { let b = r.below(64); s.insert(r.next() >> b); }
    s.into_iter().filter(|v| *v < limit).collect()
}

fn main() { suite_main(run) }

fn run(a: &Args) {
    let mut r = Rng::new(a.seed, 4);
    let mut o = a.out();
    let x = a.n;
    for v in 0..(200 + x as u64) { emit(&mut o, &mut r, &Case { k: "uvlc", v, neg: false, n: 0 }); }
    for v in around((1 << 32) - 1, &mut r, x) { emit(&mut o, &mut r, &Case { k: "uvlc", v, neg: false, n: 0 }); }
    for v in 0..(300 + x as u64) { emit(&mut o, &mut r, &Case { k: "leb", v, neg: false, n: 0 }); }
    for v in around(1 << 56, &mut r, x) { emit(&mut o, &mut r, &Case { k: "leb", v, neg: false, n: 0 }); }
    for n in 0..=32u64 {
        let lim = 1u64 << n;
        let vs: Vec<u64> = if n <= 4 { (0..lim).collect() } else {
            let mut s: BTreeSet<u64> = [0, 1, lim - 1, lim - 2, lim / 2, lim / 2 - 1, lim / 3].iter().cloned().collect();
            for b in 0..n { s.insert(1 << b); }
            for _ in 0..(x / 20) { s.insert(r.below(lim)); }
            s.into_iter().collect() };
        for v in vs { emit(&mut o, &mut r, &Case { k: "f", v, neg: false, n }); }
    }
    for n in 1..=8u64 {
        let lim = if n == 8 { u64::MAX } else { 1u64 << (8 * n) };
        let mut s: BTreeSet<u64> = [0, 1, lim - 1, lim - 2, lim / 2, 0x0102030405060708 % lim].iter().cloned().collect();
        for b in 0..(8 * n) { s.insert(1u64 << b); }
        for _ in 0..(x / 10) { s.insert(r.next() % lim); }
        for v in s { emit(&mut o, &mut r, &Case { k: "le", v, neg: false, n }); }
    }
    for n in 1..=33u64 {
        let h = 1u64 << (n - 1);
        let vs: Vec<i64> = if n <= 7 { (-(h as i64)..h as i64).collect() } else {
            let hi = h as i64;
            let mut s: BTreeSet<i64> = [0, 1, -1, hi - 1, -hi, -hi + 1, hi / 2, -hi / 2].iter().cloned().collect();
            for b in 0..(n - 1) { s.insert(1 << b); s.insert(-(1i64 << b)); }
            for _ in 0..(x / 20) { s.insert(r.range(-hi, hi - 1)); }
            s.into_iter().collect() };
        for v in vs { emit(&mut o, &mut r, &Case { k: "su", v: v.unsigned_abs(), neg: v < 0, n }); }
    }
    let mut ns: BTreeSet<u64> = (1..=36u64).collect();
    for b in 5..=40u32 { for d in [-1i64, 0, 1] { ns.insert(((1u64 << b) as i64 + d) as u64); } }
    for _ in 0..(x / 10) { let b = 24 + r.below(34); ns.insert(1 + (r.next() >> b)); }
    for n in ns {
        let vs: Vec<u64> = if n <= 36 { (0..n).collect() } else {
            let w = 64 - n.leading_zeros(); let m = (1u64 << w) - n;
            let mut s: BTreeSet<u64> = [0, 1, n - 1, n - 2, m, m.wrapping_sub(1), m + 1, n / 2].iter().cloned().collect();
            for _ in 0..(2 + x / 200) { s.insert(r.below(n)); }
            s.into_iter().filter(|v| *v < n).collect() };
        for v in vs { emit(&mut o, &mut r, &Case { k: "ns", v, neg: false, n }); }
    }
}
