//! Metadata and padding payloads (C08).
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
#[path = "../seqcfg.rs"] #[allow(dead_code)] mod seqcfg;
#[path = "../metacfg.rs"] mod metacfg;

fn main() { suite_main(run) }

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 8);
    let cases = a.cases();
    let path = format!("{}/unused.bin", a.dir);
    let mut k = 0;
    while k < cases.len() {
        let n = (1 + r.below(4) as usize).min(cases.len() - k);
        let ecx = Rc::new(RefCell::new(EncoderContext::new()));
        let mut hs: Vec<Value> = vec![];
        let e = guard(|| {
            let mut w = BinaryWriter::file(&path).unwrap();
            let mut coder = BoolCoder::new();
            let mut enc = OBUEncoder::new(&ecx, &mut w, &mut coder);
            for c in &cases[k..k + n] {
                let v = c["w"].as_object().unwrap();
                let bytes = c["bytes"].as_u64().unwrap();
                let mut bits = vec![];
                enc.encode_obu_payload(&mut OBU::OBU_METADATA(metacfg::metadata(v, bytes, &mut r)), &mut bits);
                hs.push(json!({"t": "meta", "w": v, "bytes": bytes, "bits": bits}));
                if r.chance(1, 4) {
                    let p = if r.chance(1, 10) { 300 + r.below(3000) } else { r.below(20) };
                    let mut bits = vec![];
                    enc.encode_obu_payload(&mut OBU::OBU_PADDING(p as u32), &mut bits);
                    hs.push(json!({"t": "pad", "n": p, "bits": bits}));
                }
            }
        });
        let err = e.err().unwrap_or_default();
        let shown = if err.is_empty() { json!([]) } else { json!(cases[k..k + n].to_vec()) };
        o.rec(json!({"k": "meta", "hs": hs, "err": err, "cases": shown}));
        k += n;
    }
}
