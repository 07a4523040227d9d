//! Sequence configurations: element values of the specification -> the encoder's own structures.
//! What the syntax leaves out is filled with arbitrary values wherever the encoder is to override it.
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::FilmGrainParams;
use av1enc::verif::sequence_header::*;
use av1enc_verif::Rng;
use serde_json::{json, Map, Value};

pub type W = Map<String, Value>;

/// Value as a number (numbers and bit strings).
pub fn num(v: &Value) -> u64 {
    match v {
        Value::Array(b) => b.iter().fold(0, |a, x| a << 1 | x.as_u64().unwrap()),
        Value::Number(n) => n.as_i64().unwrap() as u64,
        _ => panic!("value {}", v),
    }
}
pub fn get(w: &W, k: &str) -> Option<u64> { w.get(k).map(num) }
pub fn got(w: &W, k: &str) -> u64 { get(w, k).unwrap_or(0) }
pub fn flag(w: &W, k: &str, r: &mut Rng) -> bool { get(w, k).map(|x| x == 1).unwrap_or_else(|| r.flip()) }

pub fn color_primaries(x: u64) -> ColorPrimaries {
    use ColorPrimaries::*;
    match x { 1 => CP_BT_709, 2 => CP_UNSPECIFIED, 4 => CP_BT_470_M, 5 => CP_BT_470_B_G, 6 => CP_BT_601, 7 => CP_SMPTE_240,
        8 => CP_GENERIC_FILM, 9 => CP_BT_2020, 10 => CP_XYZ, 11 => CP_SMPTE_431, 12 => CP_SMPTE_432, 22 => CP_EBU_3213, _ => panic!("cp") }
}
pub fn transfer(x: u64) -> TransferCharacteristics {
    use TransferCharacteristics::*;
    match x { 0 => TC_RESERVED_0, 1 => TC_BT_709, 2 => TC_UNSPECIFIED, 3 => TC_RESERVED_3, 4 => TC_BT_470_M, 5 => TC_BT_470_B_G,
        6 => TC_BT_601, 7 => TC_SMPTE_240, 8 => TC_LINEAR, 9 => TC_LOG_100, 10 => TC_LOG_100_SQRT10, 11 => TC_IEC_61966, 12 => TC_BT_1361,
        13 => TC_SRGB, 14 => TC_BT_2020_10_BIT, 15 => TC_BT_2020_12_BIT, 16 => TC_SMPTE_2084, 17 => TC_SMPTE_428, 18 => TC_HLG, _ => panic!("tc") }
}
pub fn matrix(x: u64) -> MatrixCoefficients {
    use MatrixCoefficients::*;
    match x { 0 => MC_IDENTITY, 1 => MC_BT_709, 2 => MC_UNSPECIFIED, 3 => MC_RESERVED_3, 4 => MC_FCC, 5 => MC_BT_470_B_G, 6 => MC_BT_601,
        7 => MC_SMPTE_240, 8 => MC_SMPTE_YCGCO, 9 => MC_BT_2020_NCL, 10 => MC_BT_2020_CL, 11 => MC_SMPTE_2085, 12 => MC_CHROMAT_NCL,
        13 => MC_CHROMAT_CL, 14 => MC_ICTCP, _ => panic!("mc") }
}
pub fn sample_position(x: u64) -> ChromaSamplePosition {
    use ChromaSamplePosition::*;
    match x { 0 => CSP_UNKNOWN, 1 => CSP_VERTICAL, 2 => CSP_COLOCATED, _ => CSP_RESERVED }
}

pub fn decoder_model(w: &W, r: &mut Rng) -> Option<DecoderModelInfo> {
    let on = match get(w, "dmi") { Some(x) => x == 1, None => r.flip() };
    if !on { return None }
    let any = get(w, "dmi").is_none();
    let len = |k: &str, r: &mut Rng| if any { 1 + r.below(32) as u8 } else { got(w, k) as u8 + 1 };
    Some(DecoderModelInfo {
        bitrate_scale: got(w, "brscale") as u8, buffer_size_scale: got(w, "bufscale") as u8,
        encoder_decoder_buffer_delay_length: len("edlen", r), num_units_in_decoding_tick: got(w, "dectick") as u32,
        buffer_removal_delay: 0, buffer_removal_delay_length: len("brlen", r), buffer_removal_delay_present: r.flip(),
        frame_presentation_delay_length: len("fplen", r),
    })
}

/// Applies the configuration to the encoder context and returns the sequence header.
pub fn apply(w: &W, e: &mut EncoderContext, r: &mut Rng) -> SequenceHeader {
    let mut s = SequenceHeader::new(got(w, "maxw") as usize + 1, got(w, "maxh") as usize + 1);
    let red = got(w, "reduced") == 1;
    s.profile = got(w, "profile") as u8;
    s.still_picture = got(w, "still") == 1;
    e.reduced_still_picture_header = red;
    let ops = if red { 1 } else { got(w, "opcnt") + 1 };
    s.operating_points = (1..=ops).map(|i| {
        let level = got(w, &format!("level.{}", i)) as u8;
        OperatingPoint { idc: got(w, &format!("idc.{}", i)) as u16, seq_level_idx: level,
            seq_tier: if red { if level > 7 { Some(false) } else { None } } else { get(w, &format!("tier.{}", i)).map(|x| x == 1) } }
    }).collect();
    s.frame_id = if got(w, "fid") == 1 {
        Some(FrameID { delta_frame_id_length: got(w, "dfid") as u8 + 2, additional_frame_id_length: got(w, "afid") as u8 + 1 })
    } else { None };
    e.use_128x128_superblock = got(w, "sb128") == 1;
    s.enable_filter_intra = got(w, "filterintra") == 1;
    s.enable_intra_edge_filter = got(w, "intraedge") == 1;
    s.enable_interintra_compound = flag(w, "interintra", r);
    s.enable_masked_compound = flag(w, "masked", r);
    e.enable_warped_motion = flag(w, "warped", r);
    s.enable_dual_filter = flag(w, "dual", r);
    e.enable_order_hint = flag(w, "orderhint", r);
    s.enable_jnt_comp = flag(w, "jnt", r);
    e.enable_ref_frame_mvs = flag(w, "refmvs", r);
    s.seq_choose_screen_content_tools = flag(w, "choosesct", r);
    e.seq_force_screen_content_tools = get(w, "forcesct").unwrap_or_else(|| r.below(3)) as usize;
    s.seq_choose_integer_mv = flag(w, "chooseimv", r);
    e.seq_force_integer_mv = get(w, "forceimv").unwrap_or_else(|| r.below(3)) as usize;
    e.order_hint_bits = match get(w, "ohbits") { Some(x) => x as u8 + 1, None => r.below(9) as u8 };
    e.enable_superres = got(w, "superres") == 1;
    e.enable_cdef = got(w, "cdef") == 1;
    e.enable_restoration = got(w, "restoration") == 1;
    let cc = &mut e.color_config;
    cc.high_bitdepth = got(w, "high") == 1;
    cc.twelve_bit = flag(w, "twelve", r);
    cc.mono_chrome = flag(w, "mono", r);
    cc.color_description = if got(w, "cdesc") == 1 {
        Some(ColorDescription { color_primaries: color_primaries(got(w, "cp")), transfer_characteristics: transfer(got(w, "tc")),
            matrix_coefficients: matrix(got(w, "mc")) })
    } else { None };
    cc.color_range = flag(w, "crange", r);
    cc.subsampling_x = flag(w, "ssx", r);
    cc.subsampling_y = flag(w, "ssy", r);
    cc.chroma_sample_position = sample_position(get(w, "csp").unwrap_or_else(|| r.below(3)));
    cc.separate_uv_delta_q = flag(w, "sepuv", r);
    let timing = match get(w, "timing") { Some(x) => x == 1, None => r.flip() };
    e.timing_info = if timing {
        let equal = flag(w, "equal", r);
        Some(TimingInfo { num_units_in_display_tick: got(w, "tick") as u32, time_scale: got(w, "tscale") as u32,
            equal_picture_interval: equal, num_ticks_per_picture: if equal { got(w, "ticks") as u32 + 1 } else { r.below(5) as u32 } })
    } else { None };
    s.decoder_model_info = decoder_model(w, r);
    let models = if got(w, "opdm") == 1 { got(w, "opdmcnt") + 1 } else { 0 };
    e.operating_points_decoder_model = (1..=models).map(|i| {
        let k = |n: &str| format!("{}.{}", n, i);
        OperatingPointsDecoderModel {
            idc: got(w, &k("midc")) as u16,
            initial_display_delay: if got(w, &k("idd")) == 1 { Some(got(w, &k("iddv")) as u8 + 1) } else { None },
            operating_parameters_info: if got(w, &k("opi")) == 1 {
                Some(OperatingParametersInfo { bitrate: got(w, &k("br")) as u32 + 1, buffer_size: got(w, &k("buf")) as u32 + 1,
                    cbr_flag: got(w, &k("cbr")) == 1, decoder_buffer_delay: got(w, &k("ddelay")) as u32,
                    encoder_buffer_delay: got(w, &k("edelay")) as u32, low_delay_mode_flag: got(w, &k("low")) == 1 })
            } else { None },
        }
    }).collect();
    e.film_grain_params = if got(w, "grain") == 1 { Some(FilmGrainParams::new()) } else { None };
    s
}

/// The encoder's state after the header.
pub fn after(s: &SequenceHeader, e: &EncoderContext) -> Value {
    let cc = &e.color_config;
    let mut m = json!({
        "jnt": s.enable_jnt_comp as u8, "refmvs": e.enable_ref_frame_mvs as u8,
        "forcesct": e.seq_force_screen_content_tools, "forceimv": e.seq_force_integer_mv,
        "warped": e.enable_warped_motion as u8, "orderhint": e.enable_order_hint as u8,
        "interintra": s.enable_interintra_compound as u8, "masked": s.enable_masked_compound as u8, "dual": s.enable_dual_filter as u8,
        "mono": cc.mono_chrome as u8, "planes": e.num_planes, "ssx": cc.subsampling_x as u8, "ssy": cc.subsampling_y as u8,
        "crange": cc.color_range as u8, "sepuv": cc.separate_uv_delta_q as u8,
        "fid": e.frame_id_numbers_present_flag as u8, "timing": e.timing_info.is_some() as u8, "dmi": s.decoder_model_info.is_some() as u8,
        "superres": e.enable_superres as u8, "cdef": e.enable_cdef as u8, "restoration": e.enable_restoration as u8,
        "sb128": e.use_128x128_superblock as u8,
        "dfid": e.delta_frame_id_length, "afid": e.additional_frame_id_length, "ohbits": e.order_hint_bits,
    });
    let o = m.as_object_mut().unwrap();
    if let Some(cd) = cc.color_description {
        o.insert("cp".into(), json!(cd.color_primaries as u64));
        o.insert("tc".into(), json!(cd.transfer_characteristics as u64));
        o.insert("mc".into(), json!(cd.matrix_coefficients as u64));
    }
    m
}
