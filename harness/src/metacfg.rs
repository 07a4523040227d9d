//! Metadata values of the specification -> the encoder's own structures.
use crate::seqcfg::{get, got, W};
use av1enc::verif::obu::*;
use av1enc_verif::Rng;

fn mode(x: u64) -> ScalabilityModeIdc {
    use ScalabilityModeIdc::*;
    match x { 0 => SCALABILITY_L1T2, 1 => SCALABILITY_L1T3, 2 => SCALABILITY_L2T1, 3 => SCALABILITY_L2T2, 4 => SCALABILITY_L2T3,
        5 => SCALABILITY_S2T1, 6 => SCALABILITY_S2T2, 7 => SCALABILITY_S2T3, 8 => SCALABILITY_L2T1h, 9 => SCALABILITY_L2T2h,
        10 => SCALABILITY_L2T3h, 11 => SCALABILITY_S2T1h, 12 => SCALABILITY_S2T2h, 13 => SCALABILITY_S2T3h, _ => SCALABILITY_SS }
}

pub fn metadata(w: &W, bytes: u64, r: &mut Rng) -> MetaData {
    let k = |n: &str, i: u64| got(w, &format!("{}.{}", n, i));
    match got(w, "type") {
        4 => MetaData::METADATA_TYPE_ITUT_T35 { country_code: got(w, "cc") as u16, payload_bytes: (1..=bytes).map(|i| k("pb", i) as u16).collect() },
        1 => MetaData::METADATA_TYPE_HDR_CLL { max_cll: got(w, "maxcll") as u16, max_fall: got(w, "maxfall") as u16 },
        2 => MetaData::METADATA_TYPE_HDR_MDCV {
            primary_chromaticity_x: [k("px", 1) as u16, k("px", 2) as u16, k("px", 3) as u16],
            primary_chromaticity_y: [k("py", 1) as u16, k("py", 2) as u16, k("py", 3) as u16],
            white_point_chromaticity_x: got(w, "wx") as u16, white_point_chromaticity_y: got(w, "wy") as u16,
            luminance_max: got(w, "lmax") as u32, luminance_min: got(w, "lmin") as u32 },
        3 => {
            let layers = got(w, "scnt") + 1;
            let structure = if got(w, "mode") == 14 {
                Some(ScalabilityStructure {
                    spatial_layer_dimensions: if got(w, "dimp") == 1 { (1..=layers).map(|i|
                        SpatialLayerDimension { max_width: k("dimw", i) as u16, max_height: k("dimh", i) as u16 }).collect() } else { vec![] },
                    spatial_layer_descriptions: if got(w, "descp") == 1 { (1..=layers).map(|i|
                        SpatialLayerDescription { ref_id: k("refid", i) as u8 }).collect() } else { vec![] },
                    temporal_groups: (1..=got(w, "tgn")).map(|i| TemporalGroup {
                        temporal_id: k("tid", i) as u8, temporal_switching_up_point_flag: k("tsw", i) as u8,
                        spatial_switching_up_point_flag: k("ssw", i) as u8,
                        ref_pic_diffs: (1..=k("rn", i)).map(|j| got(w, &format!("rd.{}.{}", i, j)) as u8).collect() }).collect(),
                })
            } else if r.flip() { None } else { Some(ScalabilityStructure { spatial_layer_dimensions: vec![], spatial_layer_descriptions: vec![], temporal_groups: vec![] }) };
            MetaData::METADATA_TYPE_SCALABILITY { mode_idc: mode(got(w, "mode")), structure }
        }
        _ => {
            let f = |a: &str, b: &str| get(w, a).or(get(w, b)).map(|x| x as u8);
            MetaData::METADATA_TYPE_TIMECODE { counting_type: got(w, "ctype") as u8, seconds: f("fsec", "sec"), minutes: f("fmin", "min"),
                hours: f("fhour", "hour"), time_offset_length: got(w, "tol") as u8, time_offset_value: got(w, "tov") as u32 }
        }
    }
}
