//! Temporal units (C06): sequences of OBUs through the real encoder into a file.  A second encoder given
//! the same history provides the payload bits of each OBU.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::constants::FrameType;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::Frame;
use av1enc::verif::obu::*;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc::verif::sequence_header::SequenceHeader;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

fn main() { suite_main(run) }

fn make(kind: &str, n: u64, r: &mut Rng) -> OBU {
    match kind {
        "td" => OBU::OBU_TEMPORAL_DELIMITER,
        "seq" => OBU::OBU_SEQUENCE_HEADER(SequenceHeader::new(1 + r.below(8191) as usize, 1 + r.below(8191) as usize)),
        "cll" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_HDR_CLL { max_cll: r.next() as u16, max_fall: r.next() as u16 }),
        "mdcv" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_HDR_MDCV {
            primary_chromaticity_x: [r.next() as u16, 2, 3], primary_chromaticity_y: [r.next() as u16, 5, 6],
            white_point_chromaticity_x: r.next() as u16, white_point_chromaticity_y: 8, luminance_max: r.next() as u32, luminance_min: r.next() as u32 }),
        "t35" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_ITUT_T35 { country_code: 1 + r.below(200) as u16,
            payload_bytes: (0..n).map(|_| r.below(256) as u16).collect() }),
        "tc" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_TIMECODE { counting_type: r.below(32) as u8,
            seconds: if r.flip() { Some(r.below(60) as u8) } else { None }, minutes: None, hours: None,
            time_offset_length: n as u8, time_offset_value: 0 }),
        "frame" => OBU::OBU_FRAME { frame: Frame::new(FrameType::KEY_FRAME, 16, 16) },
        "tiles" => {
            let mut f = Frame::new(FrameType::KEY_FRAME, 16 + 64 * (n as usize % 3), 8 * (1 + n as usize % 5));
            f.tile_col_starts = (0..1 + n as usize % 3).collect();
            OBU::OBU_TILE_GROUP(f)
        },
        "redundant" => OBU::OBU_REDUNDANT_FRAME_HEADER,
        "pad" => OBU::OBU_PADDING(n as u32),
        _ => panic!("kind {}", kind),
    }
}
fn type_of(kind: &str) -> u64 {
    match kind { "td" => 2, "seq" => 1, "cll" | "mdcv" | "t35" | "tc" => 5, "tiles" => 4, "frame" => 6, "redundant" => 7, _ => 15 }
}

fn replay(o: &mut Out, a: &Args, kinds: &[(String, u64)], seed: u64) {
    let path = format!("{}/units.bin", a.dir);
    let twin = format!("{}/twin.bin", a.dir);
    let mut us: Vec<Value> = vec![];
    let e = guard(|| {
        let (ecx, ecx2) = (Rc::new(RefCell::new(EncoderContext::new())), Rc::new(RefCell::new(EncoderContext::new())));
        let (mut w, mut w2) = (BinaryWriter::file(&path).unwrap(), BinaryWriter::file(&twin).unwrap());
        let (mut c, mut c2) = (BoolCoder::new(), BoolCoder::new());
        let mut enc = OBUEncoder::new(&ecx, &mut w, &mut c);
        let mut enc2 = OBUEncoder::new(&ecx2, &mut w2, &mut c2);
        for (i, (k, n)) in kinds.iter().enumerate() {
            let stream = seed.wrapping_mul(1000).wrapping_add(i as u64);
            if k == "tiles" {
                for e in [&ecx, &ecx2].iter() {
                    let mut e = e.borrow_mut();
                    e.mi_row_starts = vec![0, 2 * (1 + *n as usize % 5)];
                    e.mi_col_starts = (0..1 + *n as usize % 3).map(|k| 16 * k).chain(std::iter::once(4 + 16 * (*n as usize % 3))).collect();
                    e.tg_start = 0;
                    e.tg_end = *n as usize % 3;
                    e.tile_size_bytes = 1 + *n as usize % 4;
                    e.frame_is_intra = true;
                    e.num_planes = 3;
                    e.use_128x128_superblock = false;
                }
            }
            let mut bits = vec![];
            enc2.encode_obu_payload(&mut make(k, *n, &mut Rng::new(a.seed, stream)), &mut bits);
            enc.encode_temporal_unit(&mut make(k, *n, &mut Rng::new(a.seed, stream)));
            let pad = k == "pad";
            us.push(json!({"t": type_of(k), "pay": if pad { vec![] } else { bits }, "zeros": if pad { *n as i64 } else { -1 }}));
        }
    });
    let bytes = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&twin);
    o.rec(json!({"k": "stream", "us": us, "bytes": bytes, "err": e.err().unwrap_or_default(), "kinds": kinds.iter().map(|x| x.0.clone() + ":" + &x.1.to_string()).collect::<Vec<_>>()}));
}

fn run(a: &Args) {
    let mut o = a.out();
    let mut n = 0;
    for c in a.cases() {
        let ks: Vec<(String, u64)> = c.as_array().unwrap().iter().map(|k| (k[0].as_str().unwrap().to_string(), k[1].as_u64().unwrap())).collect();
        n += 1;
        replay(&mut o, a, &ks, n);
    }
    let mut r = Rng::new(a.seed, 6);
    // sizes around the steps of the size fields, at each nesting level
    for base in [16384i64] { for d in -8i64..4 { replay(&mut o, a, &[("pad".into(), (base + d) as u64), ("td".into(), 0)], 500000 + (base + d) as u64) } }
    for d in 100..140 { replay(&mut o, a, &[("t35".into(), d), ("pad".into(), d), ("seq".into(), 0)], 700000 + d) }
    for i in 0..a.n {
        let len = 1 + r.below(12);
        let ks: Vec<(String, u64)> = (0..len).map(|_| {
            let k = *r.pick(&["td", "seq", "cll", "mdcv", "t35", "tc", "frame", "tiles", "redundant", "pad"]);
            let n = match k { "tc" => r.below(32), _ => if r.chance(1, 5) { 100 + r.below(200) } else { r.below(20) } };
            (k.to_string(), n)
        }).collect();
        replay(&mut o, a, &ks, 900000 + i as u64);
    }
}
