//! Bit writer (C05): operation sequences replayed into the real writer, the file read back.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc_verif::*;
use serde_json::{json, Value};

fn main() { suite_main(run) }

fn replay(o: &mut Out, path: &str, ops: &[Value]) {
    let e = guard(|| {
        let mut w = BinaryWriter::file(path).unwrap();
        for op in ops {
            let v: Vec<u8> = op["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            match op["op"].as_str().unwrap() { "bit" => w.write_bit(v[0]), "bits" => w.write_bits(&v), _ => w.byte_align() }
        }
    });
    let bytes = std::fs::read(path).unwrap_or_default();
    let _ = std::fs::remove_file(path);
    o.rec(json!({"k": "file", "ops": ops, "bytes": bytes, "err": e.err().unwrap_or_default()}));
}

fn run(a: &Args) {
    let mut o = a.out();
    let path = format!("{}/bits.bin", a.dir);
    for c in a.cases() { replay(&mut o, &path, c.as_array().unwrap()) }
    let mut r = Rng::new(a.seed, 5);
    // long random histories, some past the size of the writer's buffer
    for i in 0..a.n {
        let total = if i % 25 == 0 { 9000 * 8 } else { 1 + r.below(600) as usize };
        let (mut ops, mut n) = (vec![], 0);
        while n < total {
            let op = match r.below(5) { 0 => json!({"op": "align", "v": []}), 1 | 2 => json!({"op": "bit", "v": r.bits(1)}),
                _ => { let m = if r.chance(1, 6) { r.below(2000) } else { r.below(40) } as usize; n += m; json!({"op": "bits", "v": r.bits(m)}) } };
            n += 1;
            ops.push(op);
        }
        replay(&mut o, &path, &ops);
    }
    for n in 0..70usize {
        let pre = r.bits(n);
        let mut out = pre.clone();
        let e = guard(|| BoolCoder::new().push_bits_align(&mut out));
        o.rec(json!({"k": "align", "pre": pre, "out": out, "err": e.err().unwrap_or_default()}));
    }
}
