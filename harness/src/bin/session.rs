//! Whole streams (C23): a sequence header and frames, headers and tiles, through one real encoder into a file.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::block::*;
use av1enc::verif::frame::*;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
#[path = "../seqcfg.rs"] mod seqcfg;
#[path = "../framecfg.rs"] mod framecfg;
#[path = "../units.rs"] mod units;
use framecfg::*;
use units::*;

fn main() { suite_main(run) }

/// What else an application gives for the tiles: room for the results, restoration units per superblock.
fn furnish(f: &mut Frame, v: &Vals, sb: usize, r: &mut Rng) -> Vec<Vec<Vec<Vec<Vec<Value>>>>> {
    let (w, h) = (f.frame_width, f.frame_height);
    let g = Frame::new(FrameType::KEY_FRAME, w, h);
    f.mis = g.mis;
    f.cdef_idx = g.cdef_idx;
    let n = 32;
    f.lr_type = vec![vec![vec![FrameRestorationType::RESTORE_NONE; n]; n]; 3];
    f.lr_wiener = vec![vec![vec![vec![vec![99; 3]; 2]; n]; n]; 3];
    f.lr_sgr_set = vec![vec![vec![99; n]; n]; 3];
    f.lr_sgr_xqd = vec![vec![vec![vec![999; 2]; n]; n]; 3];
    let sizes = v.known_list("lrsize");
    f.superblocks = vec![];
    if sizes.is_empty() { return vec![] }
    let mut types: Vec<usize> = v.known_list("frt").iter().map(|t| *t as usize).collect();
    types.resize(3, 0);
    let m = 2 * ((sb + sizes[1] as usize - 1) / sizes[1] as usize) + 1;
    let bs = if sb == 128 { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 };
    let mut all = vec![];
    for y in 0..(h + sb - 1) / sb {
        let (mut row, mut given) = (vec![], vec![]);
        for x in 0..(w + sb - 1) / sb {
            let mut s = Superblock::new(bs, x * sb, y * sb);
            let us: Vec<Vec<Vec<Unit>>> = (0..3).map(|p| (0..m).map(|_| (0..m).map(|_| rand_unit(r, types[p])).collect()).collect()).collect();
            for p in 0..3 { s.lr_units.push(us[p].iter().map(|v| v.iter().map(|u| u.real(types[p], r)).collect()).collect()) }
            row.push(s);
            given.push(us.iter().map(|p| p.iter().map(|v| v.iter().map(|u| u.json()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
        f.superblocks.push(row);
        all.push(given);
    }
    all
}

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 23);
    for case in a.cases() {
        let hs = case["hs"].as_array().unwrap();
        let ecx = Rc::new(RefCell::new(EncoderContext::new()));
        let path = format!("{}/session.bin", a.dir);
        let mut frames: Vec<Value> = vec![];
        let mut units = vec![];
        let res = guard(|| {
            let mut w = BinaryWriter::file(&path).unwrap();
            let mut coder = BoolCoder::new();
            let mut enc = OBUEncoder::new(&ecx, &mut w, &mut coder);
            let seq = hs[0]["w"].as_object().unwrap();
            let sh = seqcfg::apply(seq, &mut ecx.borrow_mut(), &mut r);
            let mut obu = OBU::OBU_SEQUENCE_HEADER(sh);
            enc.encode_temporal_unit(&mut obu);
            let sh = match obu { OBU::OBU_SEQUENCE_HEADER(s) => s, _ => unreachable!() };
            let s = hs[0]["s"].as_object().unwrap();
            let of = |k: &str| seq.get(k).or(s.get(k)).map(int).unwrap();
            let sb = if of("sb128") == 1 { 128 } else { 64 };
            for h in &hs[1..] {
                let v = Vals { w: h["w"].as_object().unwrap(), s: h["s"].as_object().unwrap() };
                if r.flip() { enc.encode_temporal_unit(&mut OBU::OBU_TEMPORAL_DELIMITER) }
                let mut f = configure(&v, seq, &mut ecx.borrow_mut(), &sh, &mut r);
                f.subsampling_x = of("ssx") == 1;
                f.subsampling_y = of("ssy") == 1;
                units = furnish(&mut f, &v, sb, &mut r);
                {
                    // left over from before
                    let mut e = ecx.borrow_mut();
                    for i in 0..4 { e.delta_lf[i] = r.range(-63, 63) as isize }
                    e.read_deltas = r.flip();
                    e.frame_is_intra = r.flip();
                    for p in 0..3 { e.frame_restoration_type[p] = RTYPES[r.below(4) as usize] }
                }
                let mut obu = OBU::OBU_FRAME_HEADER(f);
                enc.encode_temporal_unit(&mut obu);
                if r.chance(1, 6) { enc.encode_temporal_unit(&mut obu) }
                let mut f = match obu { OBU::OBU_FRAME_HEADER(f) => f, _ => unreachable!() };
                let n = f.num_tiles();
                let said = n > 1 && r.flip();
                let mut start = 0;
                while start < n {
                    let end = if said { start + r.below((n - start) as u64) as usize } else { n - 1 };
                    f.tile_groups = if said { vec![0; 1 + r.below(3) as usize] } else { vec![] };
                    ecx.borrow_mut().tg_start = if said { start } else { r.below(9) as usize };
                    ecx.borrow_mut().tg_end = if said { end } else { r.below(9) as usize };
                    let mut obu = OBU::OBU_TILE_GROUP(f);
                    enc.encode_temporal_unit(&mut obu);
                    f = match obu { OBU::OBU_TILE_GROUP(f) => f, _ => unreachable!() };
                    start = end + 1;
                    if start < n && r.chance(1, 3) { enc.encode_temporal_unit(&mut OBU::OBU_REDUNDANT_FRAME_HEADER) }
                    if r.chance(1, 6) { enc.encode_temporal_unit(&mut OBU::OBU_PADDING(r.below(3) as u32)) }
                }
                let (uy, ux) = ((f.mi_rows() + 15) / 16, (f.mi_cols() + 15) / 16);
                let (kinds, mis) = blocks_json(&f);
                {
                    let e = ecx.borrow();
                    frames.push(json!({"mis": mis, "kinds": kinds, "cdef": cdef_json(&f, uy, ux), "units": units, "q": e.current_q_index, "lf": e.delta_lf,
                        "w": e.ref_lr_wiener.iter().map(|p| p.iter().map(ints).collect::<Vec<_>>()).collect::<Vec<_>>(), "s": e.ref_sgr_xqd.iter().map(ints).collect::<Vec<_>>()}));
                }
                update_refs(&f, &mut ecx.borrow_mut(), false);
            }
            enc.encode_temporal_unit(&mut OBU::OBU_TEMPORAL_DELIMITER);
            drop(enc);
            w.flush().unwrap();
        });
        let bytes = std::fs::read(&path).unwrap();
        let _ = std::fs::remove_file(&path);
        let err = res.err().unwrap_or_default();
        let case = if err.is_empty() { json!([]) } else { case.clone() };
        o.rec(json!({"k": "session", "bytes": bytes, "frames": frames, "err": err, "case": case}));
    }
}
