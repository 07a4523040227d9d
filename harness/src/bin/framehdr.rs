//! Frame headers (C09, C10): histories of the specification (a sequence header, then frame headers and the
//! reference slots they leave) through one real encoder.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::*;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
#[path = "../seqcfg.rs"] mod seqcfg;
#[path = "../framecfg.rs"] mod framecfg;
use framecfg::*;

fn main() { suite_main(run) }

/// The film grain parameters that have a meaning.
fn grain_state(g: &FilmGrainParams) -> Value {
    let pairs = |n: usize, a: &Vec<u8>, b: &Vec<u8>| (0..n).map(|i| json!([a[i], b[i]])).collect::<Vec<_>>();
    let coeffs = |on: bool, n: usize, a: &Vec<i16>| if on { a.iter().take(n).map(|x| x + 128).collect::<Vec<_>>() } else { vec![] };
    let luma = 2 * g.ar_coeff_lag * (g.ar_coeff_lag + 1);
    let chroma = luma + (g.num_y_points > 0) as usize;
    let cfl = g.chroma_scaling_from_luma;
    json!({"apply": g.apply_grain as u8, "seed": g.grain_seed, "y": pairs(g.num_y_points, &g.point_y_value, &g.point_y_scaling), "cfl": cfl as u8,
        "cb": pairs(g.num_cb_points, &g.point_cb_value, &g.point_cb_scaling), "cr": pairs(g.num_cr_points, &g.point_cr_value, &g.point_cr_scaling),
        "scaling": g.grain_scaling, "lag": g.ar_coeff_lag,
        "ary": coeffs(g.num_y_points > 0, luma, &g.ar_coeffs_y),
        "arcb": coeffs(cfl || g.num_cb_points > 0, chroma, &g.ar_coeffs_cb), "arcr": coeffs(cfl || g.num_cr_points > 0, chroma, &g.ar_coeffs_cr),
        "arshift": g.ar_coeff_shift, "gshift": g.grain_scale_shift,
        "cbm": if g.num_cb_points > 0 { json!([g.cb_mult, g.cb_luma_mult, g.cb_offset]) } else { json!([]) },
        "crm": if g.num_cr_points > 0 { json!([g.cr_mult, g.cr_luma_mult, g.cr_offset]) } else { json!([]) },
        "overlap": g.overlap_flag as u8, "clip": g.clip_to_restricted_range as u8})
}

/// The state after the header, under the names of the specification.
fn after(f: &Frame, e: &EncoderContext, ex: bool) -> Value {
    let b = |x: bool| x as u8;
    let mut m = json!({"refresh": e.refresh_frame_flags, "seen": b(e.seen_frame_header), "existing": b(e.show_existing_frame)});
    let o = m.as_object_mut().unwrap();
    let mut put = |k: &str, v: Value| { o.insert(k.to_string(), v); };
    if let Some(ref g) = e.film_grain_params { put("grain2", grain_state(g)) }
    if ex { put("xtype", json!(f.frame_type as u8)); return m }
    let refs = |a: &[usize; NUM_REF_FRAMES]| json!(&a[1..8]);
    put("ftype", json!(f.frame_type as u8)); put("intra", json!(b(e.frame_is_intra))); put("show", json!(b(e.show_frame)));
    put("showable", json!(b(e.showable_frame))); put("err", json!(b(f.error_resilient_mode)));
    put("sct", json!(f.allow_screen_content_tools)); put("imv", json!(f.force_integer_mv));
    put("fidv", json!(e.current_frame_id)); put("override", json!(b(e.frame_size_override_flag)));
    put("primary", json!(f.primary_ref_frame));
    put("roh8", json!(e.ref_order_hint)); put("rvalid", json!(e.ref_valid.iter().map(|x| b(*x)).collect::<Vec<_>>()));
    put("short", json!(b(f.frame_refs_short_signaling))); put("refs", json!(f.ref_frame_idx)); put("expid", json!(e.expected_frame_id));
    put("usesr", json!(b(f.use_superres))); put("sden", json!(e.superres_denom)); put("upw", json!(e.upscaled_width));
    put("fwd", json!(f.frame_width)); put("fht", json!(f.frame_height)); put("rw", json!(f.render_width as i64 - 1)); put("rh", json!(f.render_height as i64 - 1));
    put("ibc", json!(b(f.allow_intrabc))); put("hp", json!(b(f.allow_high_precision_mv))); put("interp", json!(f.interp_filter as u8));
    put("usemvs", json!(b(f.use_ref_frame_mvs))); put("ohints", refs(&e.order_hints)); put("signbias", refs(&e.ref_frame_sign_bias));
    put("noend", json!(b(e.disable_frame_end_update_cdf)));
    put("micols", json!(f.mi_cols())); put("mirows", json!(f.mi_rows()));
    put("colstarts", json!(e.mi_col_starts)); put("rowstarts", json!(e.mi_row_starts));
    put("tclog2", json!(f.tile_cols_log2())); put("trlog2", json!(f.tile_rows_log2())); put("ctxtile", json!(e.context_update_tile_id));
    put("ydc", json!(e.delta_q_y_dc)); put("udc", json!(e.delta_q_u_dc)); put("uac", json!(e.delta_q_u_ac));
    put("vdc", json!(e.delta_q_v_dc)); put("vac", json!(e.delta_q_v_ac));
    put("qmv", json!(f.quantization_params.qm_v));
    let g = &f.segmentation_params;
    put("segmap", json!(b(g.segmentation_update_map))); put("segtemp", json!(b(g.segmentation_temporal_update))); put("segdata", json!(b(g.segmentation_update_data)));
    put("feat", json!(g.feature_value.iter().map(|s| s.iter().map(|x| x.unwrap_or(-1000)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    put("preskip", json!(b(e.seg_id_pre_skip))); put("lastseg", json!(e.last_active_seg_id));
    put("dq", json!(b(f.delta_q_params.delta_q_present))); put("dqres", json!(f.delta_q_params.delta_q_res));
    put("dlf", json!(b(f.delta_lf_params.delta_lf_present))); put("dlfres", json!(f.delta_lf_params.delta_lf_res)); put("dlfmulti", json!(b(f.delta_lf_params.delta_lf_multi)));
    put("losslessarr", json!(e.lossless_array.iter().map(|x| b(*x)).collect::<Vec<_>>()));
    put("lossless", json!(b(e.coded_lossless))); put("alllossless", json!(b(e.all_lossless)));
    put("qmlevel", json!((0..8).map(|s| json!([e.seg_q_m_level[0][s], e.seg_q_m_level[1][s], e.seg_q_m_level[2][s]])).collect::<Vec<_>>()));
    let l = &f.loop_filter_params;
    put("lf1", json!(l.loop_filter_level[0])); put("lf2", json!(l.loop_filter_level[1]));
    for i in 0..8 { put(&format!("lref.{}", i + 1), json!(l.loop_filter_ref_deltas[i])) }
    for i in 0..2 { put(&format!("lmod.{}", i + 1), json!(l.loop_filter_mode_deltas[i])) }
    let c = &f.cdef_params;
    put("cdamp", json!(c.cdef_damping as i64 - 3)); put("cbits", json!(c.cdef_bits));
    let n = 1usize << c.cdef_bits;
    let strengths = |p: &Vec<u8>, s: &Vec<u8>| json!((0..n.min(p.len()).min(s.len())).map(|i| json!([p[i], s[i]])).collect::<Vec<_>>());
    put("cdefy", strengths(&c.cdef_y_pri_strength, &c.cdef_y_sec_strength));
    put("cdefuv", strengths(&c.cdef_uv_pri_strength, &c.cdef_uv_sec_strength));
    put("frt", json!((0..e.num_planes).map(|i| e.frame_restoration_type[i] as u8).collect::<Vec<_>>()));
    put("useslr", json!(b(e.uses_lr))); put("chromalr", json!(b(e.uses_chroma_lr))); put("lruv", json!(f.lr_params.lr_uv_shift));
    put("lrsize", json!(e.loop_restoration_size));
    put("txmode", json!(e.tx_mode as u8)); put("refsel", json!(b(f.reference_select)));
    put("skipallowed", json!(b(e.skip_mode_allowed)));
    put("skipframes", if e.skip_mode_allowed { json!([e.skip_mode_frame[0] as i64, e.skip_mode_frame[1] as i64]) } else { json!([]) });
    put("skipmode", json!(b(f.skip_mode_present))); put("warp", json!(b(f.allow_warped_motion)));
    put("prevgm", json!(&e.prev_gm_params[1..8]));
    for rf in 1..8 { put(&format!("gmty.{}", rf), json!(e.gm_type[rf])); put(&format!("gm.{}", rf), json!(e.gm_params[rf])) }
    m
}

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 9);
    for case in a.cases() {
        let hs = case["hs"].as_array().unwrap();
        let ecx = Rc::new(RefCell::new(EncoderContext::new()));
        let path = format!("{}/unused.bin", a.dir);
        let mut seq_bits = vec![];
        let mut fs: Vec<Value> = vec![];
        let res = guard(|| {
            let mut w = BinaryWriter::file(&path).unwrap();
            let mut coder = BoolCoder::new();
            let mut enc = OBUEncoder::new(&ecx, &mut w, &mut coder);
            let seq = hs[0]["w"].as_object().unwrap();
            let sh = seqcfg::apply(seq, &mut ecx.borrow_mut(), &mut r);
            let mut obu = OBU::OBU_SEQUENCE_HEADER(sh);
            enc.encode_obu_payload(&mut obu, &mut seq_bits);
            let sh = match obu { OBU::OBU_SEQUENCE_HEADER(s) => s, _ => unreachable!() };
            let mut ended = true;        // no frame header under way
            for h in &hs[1..] {
                let v = Vals { w: h["w"].as_object().unwrap(), s: h["s"].as_object().unwrap() };
                let ex = v.known("existing") == Some(1);
                if !ended || r.flip() { enc.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut vec![]) }
                let (tid, sid) = (int(&h["tid"]), int(&h["sid"]));
                ecx.borrow_mut().temporal_id = tid as usize;
                ecx.borrow_mut().spatial_id = sid as usize;
                let f = configure(&v, seq, &mut ecx.borrow_mut(), &sh, &mut r);
                let mut obu = OBU::OBU_FRAME_HEADER(f);
                let mut bits = vec![];
                enc.encode_obu_payload(&mut obu, &mut bits);
                let state = |obu: &OBU| match obu { &OBU::OBU_FRAME_HEADER(ref f) => after(f, &ecx.borrow(), ex), _ => unreachable!() };
                let st = state(&obu);
                // the header once more, before the frame ends
                let mut copies: Vec<Value> = vec![];
                if !ex && r.flip() {
                    for _ in 0..1 + r.below(2) {
                        let mut again = vec![];
                        if r.flip() { enc.encode_obu_payload(&mut obu, &mut again) }
                        else { enc.encode_obu_payload(&mut OBU::OBU_REDUNDANT_FRAME_HEADER, &mut again) }
                        copies.push(json!({"bits": again, "same": state(&obu) == st}));
                    }
                }
                fs.push(json!({"w": v.w, "tid": tid, "sid": sid, "bits": bits, "after": st, "copies": copies}));
                if let OBU::OBU_FRAME_HEADER(ref f) = obu { update_refs(f, &mut ecx.borrow_mut(), ex) }
                ended = ex;
            }
        });
        let _ = std::fs::remove_file(&path);
        let err = res.err().unwrap_or_default();
        let case = if err.is_empty() { json!([]) } else { case.clone() };
        o.rec(json!({"k": "frames", "seq": seq_bits, "fs": fs, "err": err, "case": case}));
    }
}
