//! Frame configurations of the specification, applied to the real encoder (C09, C10, C23).
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::*;
use av1enc::verif::sequence_header::{DecoderModelInfo, SequenceHeader};
use av1enc_verif::*;
use serde_json::Value;
use super::seqcfg::{get, num, W};

pub fn int(v: &Value) -> i64 { match v { Value::Number(n) => n.as_i64().unwrap(), _ => num(v) as i64 } }
pub fn list(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(int).collect()).unwrap_or_default() }
pub fn frame_type(x: u64) -> FrameType {
    match x { 0 => FrameType::KEY_FRAME, 1 => FrameType::INTER_FRAME, 2 => FrameType::INTRA_ONLY_FRAME, _ => FrameType::SWITCH_FRAME }
}
pub fn interp(x: u64) -> InterpFilter {
    use InterpFilter::*;
    match x { 0 => EIGHTTAP, 1 => EIGHTTAP_SMOOTH, 2 => EIGHTTAP_SHARP, 3 => BILINEAR, _ => SWITCHABLE }
}

/// The values of one header: what is coded, else what follows from it, else anything.
pub struct Vals<'a> { pub w: &'a W, pub s: &'a W }
impl<'a> Vals<'a> {
    pub fn coded(&self, k: &str) -> Option<i64> { self.w.get(k).map(int) }
    pub fn or(&self, k: &str, other: i64) -> i64 { self.coded(k).unwrap_or(other) }
    pub fn coded1(&self, k: &str, i: usize) -> Option<i64> { self.coded(&format!("{}.{}", k, i)) }
    pub fn known(&self, k: &str) -> Option<i64> { self.w.get(k).or(self.s.get(k)).map(int) }
    pub fn known_list(&self, k: &str) -> Vec<i64> { self.s.get(k).map(list).unwrap_or_default() }
    pub fn flag(&self, k: &str, r: &mut Rng) -> bool { self.coded(k).map(|x| x == 1).unwrap_or_else(|| r.flip()) }
    pub fn flag1(&self, k: &str, i: usize, r: &mut Rng) -> bool { self.flag(&format!("{}.{}", k, i), r) }
    pub fn any(&self, k: &str, n: u64, r: &mut Rng) -> i64 { self.coded(k).unwrap_or_else(|| r.below(n) as i64) }
    pub fn any1(&self, k: &str, i: usize, n: u64, r: &mut Rng) -> i64 { self.any(&format!("{}.{}", k, i), n, r) }
}

pub fn grain(v: &Vals, r: &mut Rng) -> FilmGrainParams {
    let mut g = FilmGrainParams::new();
    g.apply_grain = v.flag("gapply", r);
    g.grain_seed = v.any("gseed", 65536, r) as u16;
    g.update_grain = v.flag("gupdate", r);
    g.film_grain_params_ref_idx = v.any("gref", 8, r) as usize;
    let points = |k: &str, a: &str, b: &str, r: &mut Rng| {
        let n = v.any(k, 3, r) as usize;
        ((1..=n).map(|i| v.any1(a, i, 256, r) as u8).collect::<Vec<_>>(), (1..=n).map(|i| v.any1(b, i, 256, r) as u8).collect::<Vec<_>>())
    };
    let (a, b) = points("gny", "gyv", "gys", r); g.num_y_points = a.len(); g.point_y_value = a; g.point_y_scaling = b;
    g.chroma_scaling_from_luma = v.flag("gcfl", r);
    let (a, b) = points("gncb", "gcbv", "gcbs", r); g.num_cb_points = a.len(); g.point_cb_value = a; g.point_cb_scaling = b;
    let (a, b) = points("gncr", "gcrv", "gcrs", r); g.num_cr_points = a.len(); g.point_cr_value = a; g.point_cr_scaling = b;
    g.grain_scaling = v.any("gscale", 4, r) as usize + 8;
    g.ar_coeff_lag = v.any("glag", 4, r) as usize;
    g.ar_coeffs_y = (1..=24).map(|i| v.any1("gay", i, 256, r) as i16 - 128).collect();
    g.ar_coeffs_cb = (1..=25).map(|i| v.any1("gab", i, 256, r) as i16 - 128).collect();
    g.ar_coeffs_cr = (1..=25).map(|i| v.any1("gar", i, 256, r) as i16 - 128).collect();
    g.ar_coeff_shift = v.any("gshift", 4, r) as usize + 6;
    g.grain_scale_shift = v.any("gss", 4, r) as usize;
    g.cb_mult = v.any("gcbm", 256, r) as usize; g.cb_luma_mult = v.any("gcbl", 256, r) as usize; g.cb_offset = v.any("gcbo", 512, r) as usize;
    g.cr_mult = v.any("gcrm", 256, r) as usize; g.cr_luma_mult = v.any("gcrl", 256, r) as usize; g.cr_offset = v.any("gcro", 512, r) as usize;
    g.overlap_flag = v.flag("gover", r);
    g.clip_to_restricted_range = v.flag("gclip", r);
    g
}

/// Configures the encoder for the frame and returns it.
pub fn configure(v: &Vals, seq: &W, e: &mut EncoderContext, sh: &SequenceHeader, r: &mut Rng) -> Frame {
    let ex = v.known("existing") == Some(1);
    let kind = if ex { r.below(4) } else { v.known("ftype").unwrap() as u64 };
    let mut f = Frame::new(frame_type(if get(seq, "reduced") == Some(1) { r.below(4) } else { kind }), 16, 16);
    e.show_existing_frame = if v.coded("existing").is_some() { ex } else { r.flip() };
    e.frame_to_show_map_idx = v.any("showidx", 8, r) as u8;
    f.decoder_model_info = sh.decoder_model_info.as_ref().map(|d| DecoderModelInfo {
        bitrate_scale: d.bitrate_scale, buffer_size_scale: d.buffer_size_scale,
        encoder_decoder_buffer_delay_length: d.encoder_decoder_buffer_delay_length, num_units_in_decoding_tick: d.num_units_in_decoding_tick,
        buffer_removal_delay: (1..=4).filter_map(|i| v.coded1("brd", i)).next().unwrap_or(0) as usize,
        buffer_removal_delay_length: d.buffer_removal_delay_length, buffer_removal_delay_present: v.flag("brp", r),
        frame_presentation_delay_length: d.frame_presentation_delay_length });
    f.temporal_point_info = match v.coded("tpd").or(v.coded("tpdx")) {
        Some(x) => Some(TemporalPointInfo { tu_presentation_delay: x as u32 }),
        None => if r.flip() { Some(TemporalPointInfo { tu_presentation_delay: r.below(1000) as u32 }) } else { None } };
    f.display_frame_id = Some(v.any("dispid", 9, r) as u32);
    e.show_frame = v.flag("show", r);
    e.showable_frame = v.flag("showable", r);
    f.error_resilient_mode = v.flag("err", r);
    e.disable_cdf_update = v.flag("nocdf", r);
    f.allow_screen_content_tools = v.any("sct", 2, r) as usize;
    f.force_integer_mv = v.any("imvf", 2, r) as usize;
    e.current_frame_id = v.any("fidv", 9, r) as usize;
    e.frame_size_override_flag = v.flag("override", r);
    f.order_hint = v.or("ohint", 0) as u8;
    f.primary_ref_frame = v.any("primary", 8, r) as u8;
    e.refresh_frame_flags = v.any("refresh", 256, r) as u8;
    for i in 0..8 { f.ref_order_hint[i] = v.any1("roh", i + 1, 4, r) as usize }
    f.frame_refs_short_signaling = v.flag("short", r);
    f.last_frame_idx = v.any("lastidx", 8, r) as u8;
    f.gold_frame_idx = v.any("goldidx", 8, r) as u8;
    let refs = v.known_list("refs");
    for i in 0..7 {
        f.ref_frame_idx[i] = if refs.is_empty() { r.below(8) as u8 } else { refs[i] as u8 };
        f.delta_frame_id[i] = v.any1("dfidv", i + 1, 3, r) as usize + 1;
    }
    if !ex {
        f.frame_width = v.known("upw").unwrap() as usize;
        f.frame_height = v.known("fht").unwrap() as usize;
        f.render_width = v.known("rw").unwrap() as usize + 1;
        f.render_height = v.known("rh").unwrap() as usize + 1;
    }
    f.use_superres = v.flag("usesr", r);
    e.superres_denom = v.any("denom", 8, r) as usize + 9;
    f.allow_intrabc = v.flag("ibc", r);
    f.allow_high_precision_mv = v.flag("hp", r);
    f.is_filter_switchable = v.flag("fswitch", r);
    f.interp_filter = interp(v.any("interp", 5, r) as u64);
    f.is_motion_mode_switchable = v.flag("mmswitch", r);
    f.use_ref_frame_mvs = v.flag("usemvs", r);
    e.disable_frame_end_update_cdf = v.flag("noend", r);
    f.tile_info.uniform_tile_spacing_flag = v.flag("uniform", r);
    if !ex {
        f.tile_col_starts = v.known_list("tcstarts").iter().map(|x| *x as usize).collect();
        f.tile_row_starts = v.known_list("trstarts").iter().map(|x| *x as usize).collect();
    }
    e.context_update_tile_id = v.any("ctxtile", 4, r) as usize;
    e.tile_size_bytes = v.any("tsb", 4, r) as usize + 1;
    let q = &mut f.quantization_params;
    q.base_q_idx = v.or("baseq", 0) as u8;
    q.diff_uv_delta = v.flag("diffuv", r);
    q.using_qmatrix = v.flag("qm", r);
    q.qm_y = v.any("qmy", 16, r) as u8; q.qm_u = v.any("qmu", 16, r) as u8; q.qm_v = v.any("qmv", 16, r) as u8;
    let dq = |flag: &str, k: &str, r: &mut Rng| match v.coded(flag) { Some(1) => v.coded(k).unwrap() as isize, Some(_) => 0, None => r.range(-9, 9) as isize };
    e.delta_q_y_dc = dq("ydcc", "ydc", r);
    e.delta_q_u_dc = dq("udcc", "udc", r); e.delta_q_u_ac = dq("uacc", "uac", r);
    e.delta_q_v_dc = dq("vdcc", "vdc", r); e.delta_q_v_ac = dq("vacc", "vac", r);
    let g = &mut f.segmentation_params;
    g.segmentation_enabled = v.flag("seg", r);
    g.segmentation_update_map = v.flag("segmap", r);
    g.segmentation_temporal_update = v.flag("segtemp", r);
    g.segmentation_update_data = v.flag("segdata", r);
    let feats: Vec<Vec<i64>> = v.s.get("feat").and_then(|x| x.as_array()).map(|a| a.iter().map(list).collect()).unwrap_or_default();
    for s in 0..8 { for j in 0..SEG_LVL_MAX {
        let k = format!("fe.{}.{}", s + 1, j + 1);
        g.feature_value[s][j] = match v.coded(&k) {
            Some(1) => Some(v.coded(&format!("fv.{}.{}", s + 1, j + 1)).unwrap() as isize),
            Some(_) => None,
            None => if v.known("seg") == Some(1) { if feats[s][j] == -1000 { None } else { Some(feats[s][j] as isize) } }   // those of the reference
                    else if r.flip() { Some(1) } else { None },
        }
    } }
    f.delta_q_params.delta_q_present = v.flag("dq", r);
    f.delta_q_params.delta_q_res = v.any("dqres", 4, r) as u8;
    f.delta_lf_params.delta_lf_present = v.flag("dlf", r);
    f.delta_lf_params.delta_lf_res = v.any("dlfres", 4, r) as u8;
    f.delta_lf_params.delta_lf_multi = v.flag("dlfmulti", r);
    e.current_q_index = r.below(2) as usize * 100;
    let l = &mut f.loop_filter_params;
    for i in 0..4 { l.loop_filter_level[i] = v.any(&format!("lf{}", i + 1), 64, r) as u8 }
    l.loop_filter_sharpness = v.any("sharp", 8, r) as u8;
    l.loop_filter_delta_enabled = v.flag("lfd", r);
    l.loop_filter_delta_update = v.flag("lfu", r);
    for i in 0..8 { l.update_ref_delta[i] = v.flag1("lrefu", i + 1, r); l.loop_filter_ref_deltas[i] = v.any1("lref", i + 1, 60, r) as isize }
    for i in 0..2 { l.update_mode_delta[i] = v.flag1("lmodu", i + 1, r); l.loop_filter_mode_deltas[i] = v.any1("lmod", i + 1, 60, r) as isize }
    let c = &mut f.cdef_params;
    c.cdef_damping = v.any("cdamp", 4, r) as u8 + 3;
    c.cdef_bits = v.any("cbits", 4, r) as u8;
    if v.coded("cbits").is_some() || r.flip() {
        for i in 1..=8 {
            c.cdef_y_pri_strength.push(v.any1("cyp", i, 16, r) as u8); c.cdef_y_sec_strength.push(v.any1("cys", i, 4, r) as u8);
            c.cdef_uv_pri_strength.push(v.any1("cup", i, 16, r) as u8); c.cdef_uv_sec_strength.push(v.any1("cus", i, 4, r) as u8);
        }
    }
    f.lr_params.lr_type = v.any("lrtype.1", 4, r) as u8;
    f.lr_params.lr_unit_shift = match v.known("lrshift") { Some(x) => x as usize, None => r.below(3) as usize };
    f.lr_params.lr_unit_extra_shift = r.below(2) as usize;
    f.lr_params.lr_uv_shift = v.any("lruv", 2, r) as usize;
    f.tx_mode_select = v.flag("txsel", r);
    f.reference_select = v.flag("refsel", r);
    f.skip_mode_present = v.flag("skipmode", r);
    f.allow_warped_motion = v.flag("warp", r);
    f.reduced_tx_set = v.flag("redtx", r);
    for rf in 1..8 {
        f.global_motion_params.is_global[rf] = v.flag1("gmg", rf, r);
        f.global_motion_params.is_rot_zoom[rf] = v.flag1("gmr", rf, r);
        f.global_motion_params.is_translation[rf] = v.flag1("gmt", rf, r);
        let ty = v.known(&format!("gmty.{}", rf)).unwrap_or(0);
        let gm = v.known_list(&format!("gm.{}", rf));
        for i in 0..6 {
            let coded = match i { 0 | 1 => ty >= 1, 2 | 3 => ty >= 2, _ => ty == 3 };
            e.gm_params[rf][i] = if coded { gm[i] as isize } else { r.range(-70000, 70000) as isize };
            e.prev_gm_params[rf][i] = r.range(-70000, 70000) as isize;
        }
    }
    if let Some(p) = v.s.get("prevgm").and_then(|x| x.as_array()) {
        if v.coded("primary").map(|x| x != 7).unwrap_or(false) {      // those saved with the primary reference
            for rf in 1..8 { for (i, x) in list(&p[rf - 1]).iter().enumerate() { e.prev_gm_params[rf][i] = *x as isize } }
        }
    }
    if get(seq, "grain") == Some(1) { e.film_grain_params = Some(grain(v, r)) }
    // left over from before
    e.coded_lossless = r.flip(); e.all_lossless = r.flip(); e.uses_lr = r.flip(); e.uses_chroma_lr = r.flip();
    for i in 0..3 { e.loop_restoration_size[i] = r.below(300) as usize }
    e.skip_mode_allowed = r.flip();
    e.last_active_seg_id = r.below(8) as usize; e.seg_id_pre_skip = r.flip();
    f
}

/// What the application does when the frame is complete: the slots named by refresh_frame_flags take it over.
pub fn update_refs(f: &Frame, e: &mut EncoderContext, ex: bool) {
    let k = e.frame_to_show_map_idx as usize;
    let grain = if ex { e.ref_film_grain_params[k].clone() }
                else { match e.film_grain_params { Some(ref g) => g.clone(), None => FilmGrainParams::new() } };
    let (valid, id, oh, ty) = if ex { (e.ref_valid[k], e.ref_frame_id[k], e.ref_order_hint[k], e.ref_frame_type[k]) }
                              else { (true, e.current_frame_id, f.order_hint as usize, f.frame_type) };
    for i in 0..8 {
        if e.refresh_frame_flags >> i & 1 == 1 {
            e.ref_valid[i] = valid; e.ref_frame_id[i] = id; e.ref_order_hint[i] = oh; e.ref_frame_type[i] = ty;
            e.ref_film_grain_params[i] = grain.clone();
        }
    }
}

