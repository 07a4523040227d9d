//! Sequence headers (C07): configurations of the specification, 1 to 3 per encoder.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
#[path = "../seqcfg.rs"] mod seqcfg;

fn main() { suite_main(run) }

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 7);
    let cases = a.cases();
    let mut k = 0;
    while k < cases.len() {
        let n = (1 + r.below(3) as usize).min(cases.len() - k);
        let ecx = Rc::new(RefCell::new(EncoderContext::new()));
        let mut hs: Vec<Value> = vec![];
        let path = format!("{}/unused.bin", a.dir);
        let e = guard(|| {
            let mut w = BinaryWriter::file(&path).unwrap();
            let mut coder = BoolCoder::new();
            let mut enc = OBUEncoder::new(&ecx, &mut w, &mut coder);
            for c in &cases[k..k + n] {
                let v = c["w"].as_object().unwrap();
                let s = seqcfg::apply(v, &mut ecx.borrow_mut(), &mut r);
                let mut obu = OBU::OBU_SEQUENCE_HEADER(s);
                let mut bits = vec![];
                enc.encode_obu_payload(&mut obu, &mut bits);
                let s = match obu { OBU::OBU_SEQUENCE_HEADER(s) => s, _ => unreachable!() };
                hs.push(json!({"w": v, "bits": bits, "after": seqcfg::after(&s, &ecx.borrow())}));
            }
        });
        let err = e.err().unwrap_or_default();
        let shown = if err.is_empty() { json!([]) } else { json!(cases[k..k + n].to_vec()) };
        o.rec(json!({"k": "seq", "hs": hs, "err": err, "cases": shown}));
        k += n;
    }
}
