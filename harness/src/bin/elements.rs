//! Drives every block-level syntax element writer once per record: which probability tables changed and how,
//! the bits, and whether the neighbouring blocks were left alone.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::cdf::*;
use av1enc::verif::constants::*;
use av1enc::verif::frame::*;
use av1enc_verif::*;
use serde_json::{json, Value};
#[path = "../blk.rs"]
mod blk;
#[path = "../cdfwalk.rs"]
mod cdfwalk;
use blk::*;

fn main() { suite_main(run) }

struct Ctx { base: CDF, coder: BoolCoder, o: Out }

fn mi_json(m: &ModeInfo) -> Value {
    json!({"bs": m.mi_size as i64, "tx": m.tx_size as i64, "ty": m.tx_type as i64, "inter": m.is_inter, "skip": m.skip, "intra": m.intra, "single": m.single,
        "sp": m.seg_id_predicted, "sm": m.skip_mode, "r0": m.ref_frame[0] as i64, "r1": m.ref_frame[1] as i64, "f": [m.interp_filter[0] as i64, m.interp_filter[1] as i64],
        "lc": m.level_context, "dc": m.dc_context, "pal": m.palette_size, "cg": m.comp_group_idx, "ci": m.compound_idx, "seg": m.segment_id, "ym": m.y_mode as i64,
        "mv": [m.mvs[0].x, m.mvs[0].y, m.mvs[1].x, m.mvs[1].y]})
}
fn opt_json(m: &Option<ModeInfo>) -> Value { match m { Some(m) => json!([mi_json(m)]), None => json!([]) } }
fn grid(f: &Frame) -> String { f.mis.iter().map(|r| r.iter().map(|m| opt_json(m).to_string()).collect::<String>()).collect::<String>() }

impl Ctx {
    /// p: parameters of the element (with "e" its name and "v" the value)
    fn go(&mut self, mut p: Value, frame: Option<&mut Frame>, f: impl FnOnce(&mut BoolCoder, &mut Vec<u8>, &mut CDF, Option<&mut Frame>)) {
        let mut cdf = Box::new(self.base);
        let mut bits = vec![];
        let coder = &mut self.coder;
        let mut frame = frame;
        let before = frame.as_ref().map(|f| grid(f));
        let err = { let fr = frame.as_mut().map(|f| &mut **f); guard(|| { coder.init_encoder(); f(coder, &mut bits, &mut cdf, fr); coder.exit_encoder(&mut bits); }) };
        let after = frame.as_ref().map(|f| grid(f));
        if err.is_err() { self.coder = BoolCoder::new() }
        let ch: Vec<Value> = cdfwalk::tables(&self.base).into_iter().zip(cdfwalk::tables(&cdf)).filter(|(a, b)| a.1 != b.1)
            .map(|(a, b)| json!({"t": a.0, "b": a.1, "a": b.1})).take(4).collect();
        p["ch"] = json!(ch);
        p["bits"] = json!(bits);
        p["same"] = json!(before == after);
        p["err"] = json!(err.err().unwrap_or_default());
        self.o.rec(p)
    }
}

/// Reference pairs a block can have: intra, one reference (perhaps with intra), two references.
fn ref_pairs() -> Vec<[i64; 2]> {
    let mut v = vec![[0, -1]];
    for a in 1..8 { v.push([a, -1]); v.push([a, 0]); }
    for a in 1..5 { for b in 5..8 { v.push([a, b]) } }
    v.extend_from_slice(&[[1, 2], [1, 3], [1, 4], [5, 7]]);
    v
}
fn rand_mi(r: &mut Rng) -> ModeInfo {
    let p = *r.pick(&ref_pairs());
    with_refs(r, p)
}
fn with_refs(r: &mut Rng, p: [i64; 2]) -> ModeInfo {
    let mut m = mode_info();
    m.mi_size = BLOCKS[r.below(22) as usize];
    m.tx_size = TXS[r.below(19) as usize];
    m.tx_type = TYPES[r.below(16) as usize];
    m.ref_frame = [rf(p[0]), rf(p[1])];
    m.intra = p[0] <= 0;
    m.is_inter = p[0] > 0;
    m.single = p[1] <= 0;
    m.skip = r.flip();
    m.seg_id_predicted = r.below(2) as usize;
    m.skip_mode = r.below(2) as usize;
    m.interp_filter = [FILTERS[r.below(4) as usize], FILTERS[r.below(4) as usize]];
    for i in 0..3 {
        m.level_context[i] = *r.pick(&[0, 0, 1, 2, 3, 4, 5, 17, 63, 255, 300]);
        m.dc_context[i] = r.below(3) as usize;
        m.palette_size[i] = if r.flip() { 0 } else { r.range(2, 8) as usize };
    }
    m.comp_group_idx = r.below(2) as usize;
    m.compound_idx = r.below(2) as usize;
    m.segment_id = r.below(8) as usize;
    m.y_mode = MODES[r.below(13) as usize];
    m.mvs[0].x = r.range(-9, 9) as isize;
    m
}

/// A 4x4 grid of blocks with the given ones above and left of (row, col).
struct Place { f: Frame, row: usize, col: usize }
impl Place {
    fn new(r: &mut Rng, u: Option<ModeInfo>, l: Option<ModeInfo>) -> Place {
        let mut f = Frame::new(FrameType::KEY_FRAME, 16, 16);
        for x in f.mis.iter_mut() { for y in x.iter_mut() { *y = Some(rand_mi(r)) } }
        // an unavailable neighbour is one outside the picture, or not there
        let row = if u.is_none() && r.flip() { 0 } else { r.range(1, 3) as usize };
        let col = if l.is_none() && r.flip() { 0 } else { r.range(1, 3) as usize };
        if row > 0 { f.mis[row - 1][col] = u }
        if col > 0 { f.mis[row][col - 1] = l }
        Place { f, row, col }
    }
    fn rand(r: &mut Rng) -> Place {
        let mut n = |r: &mut Rng| if r.chance(1, 5) { None } else { Some(rand_mi(r)) };
        let (u, l) = (n(r), n(r));
        Place::new(r, u, l)
    }
    fn u(&self) -> Value { if self.row == 0 { json!([]) } else { opt_json(&self.f.mis[self.row - 1][self.col]) } }
    fn l(&self) -> Value { if self.col == 0 { json!([]) } else { opt_json(&self.f.mis[self.row][self.col - 1]) } }
    fn p(&self, e: &str, v: usize) -> Value {
        json!({"e": e, "v": v, "u": self.u(), "l": self.l(), "h": opt_json(&self.f.mis[self.row][self.col])})
    }
}

fn plain(e: &str, v: usize) -> Value { json!({"e": e, "v": v}) }

/// Elements whose table depends only on the two neighbours.
fn neighbours(c: &mut Ctx, r: &mut Rng, e: &str, p: &mut Place) {
    let v = r.below(2) as usize;
    let (row, col) = (p.row, p.col);
    let j = p.p(e, v);
    let f = Some(&mut p.f);
    macro_rules! el { ($m: ident) => { c.go(j, f, |k, b, t, f| k.$m(b, t, v, f.unwrap(), row, col)) } }
    match e {
        "comp_mode" => el!(encode_comp_mode), "skip_mode" => el!(encode_skip_mode), "skip" => el!(encode_skip),
        "comp_ref" => el!(encode_comp_ref), "comp_ref_p1" => el!(encode_comp_ref_p1), "comp_ref_p2" => el!(encode_comp_ref_p2),
        "comp_bwdref" => el!(encode_comp_bwdref), "comp_bwdref_p1" => el!(encode_comp_bwdref_p1),
        "single_ref_p1" => el!(encode_single_ref_p1), "single_ref_p2" => el!(encode_single_ref_p2), "single_ref_p3" => el!(encode_single_ref_p3),
        "single_ref_p4" => el!(encode_single_ref_p4), "single_ref_p5" => el!(encode_single_ref_p5), "single_ref_p6" => el!(encode_single_ref_p6),
        "comp_ref_type" => el!(encode_comp_ref_type), "uni_comp_ref" => el!(encode_uni_comp_ref), "uni_comp_ref_p1" => el!(encode_uni_comp_ref_p1),
        "uni_comp_ref_p2" => el!(encode_uni_comp_ref_p2), "comp_group_idx" => el!(encode_comp_group_idx),
        "is_inter" => c.go(j, f, |k, b, t, f| k.encode_is_inter(b, t, v == 1, row, col, f.unwrap())),
        "seg_id_predicted" => c.go(j, f, |k, b, t, f| k.encode_seg_id_predicted(b, t, v, row, col, f.unwrap())),
        _ => panic!("{}", e),
    }
}
const NEIGHBOURS: [&str; 21] = ["comp_mode", "skip_mode", "skip", "comp_ref", "comp_ref_p1", "comp_ref_p2", "comp_bwdref", "comp_bwdref_p1",
    "single_ref_p1", "single_ref_p2", "single_ref_p3", "single_ref_p4", "single_ref_p5", "single_ref_p6", "comp_ref_type", "uni_comp_ref",
    "uni_comp_ref_p1", "uni_comp_ref_p2", "comp_group_idx", "is_inter", "seg_id_predicted"];

fn run(a: &Args) {
    let mut r = Rng::new(a.seed, 15);
    let mut c = Ctx { base: default_cdf, coder: BoolCoder::new(), o: a.out() };
    // all pairs of neighbour reference combinations the model enumerates
    for case in a.cases() {
        let e = case["e"].as_str().unwrap().to_string();
        let mut nb = |r: &mut Rng, k: &str| { let v = &case[k]; if v.as_array().unwrap().is_empty() { None } else { Some(with_refs(r, [v[0].as_i64().unwrap(), v[1].as_i64().unwrap()])) } };
        let (u, l) = (nb(&mut r, "u"), nb(&mut r, "l"));
        let mut p = Place::new(&mut r, u, l);
        neighbours(&mut c, &mut r, &e, &mut p);
    }
    for e in NEIGHBOURS.iter() { for _ in 0..a.n / 4 { let mut p = Place::rand(&mut r); neighbours(&mut c, &mut r, e, &mut p); } }
    modes(&mut c, &mut r);
    tabled(&mut c, &mut r);
    for _ in 0..a.n { sized(&mut c, &mut r) }
    for _ in 0..a.n { coefficients(&mut c, &mut r) }
}

/// Modes and partitions: whole domains.
fn modes(c: &mut Ctx, r: &mut Rng) {
    for y in 0..13usize { for u in 0..13usize { for l in 0..13usize {
        if r.chance(2, 3) && y != 12 { continue }
        let j = json!({"e": "intra_frame_y_mode", "v": y, "um": u, "lm": l});
        c.go(j, None, |k, b, t, _| k.encode_intra_frame_y_mode(b, t, MODES[y], MODES[u], MODES[l]));
    } } }
    for bs in 0..22usize {
        for y in 0..13usize { c.go(json!({"e": "y_mode", "v": y, "bs": bs}), None, |k, b, t, _| k.encode_y_mode(b, t, MODES[y], BLOCKS[bs])); }
        for lossless in [false, true] { for sx in [false, true] { for sy in [false, true] {
            if !sx && sy { continue }
            if lossless && sx && !sy && [1usize, 4, 7, 10, 13, 16, 18, 20].contains(&bs) { continue } // no such chroma block in 4:2:2
            for y in 0..13usize {
                if r.chance(1, 2) { continue }
                let dims = (block_width[bs], block_height[bs]);
                let cfl = if lossless { (if sx { dims.0 / 2 } else { dims.0 }).max(4) == 4 && (if sy { dims.1 / 2 } else { dims.1 }).max(4) == 4 } else { dims.0.max(dims.1) <= 32 };
                let v = r.below(if cfl { 14 } else { 13 }) as usize;
                let j = json!({"e": "uv_mode", "v": v, "ym": y, "bs": bs, "lossless": lossless, "sx": sx as u8, "sy": sy as u8});
                c.go(j, None, |k, b, t, _| k.encode_uv_mode(b, t, MODES[v], MODES[y], BLOCKS[bs], lossless, sx, sy));
            }
        } } }
    }
    for m in 1..9usize { for v in 0..7usize {
        c.go(json!({"e": "angle_delta_y", "v": v, "m": m}), None, |k, b, t, _| k.encode_angle_delta_y(b, t, MODES[m], v));
        c.go(json!({"e": "angle_delta_uv", "v": v, "m": m}), None, |k, b, t, _| k.encode_angle_delta_uv(b, t, MODES[m], v));
    } }
    use Partition::*;
    let parts = [PARTITION_NONE, PARTITION_HORZ, PARTITION_VERT, PARTITION_SPLIT, PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4];
    for bs in [3usize, 6, 9, 12, 15] { for u in [false, true] { for l in [false, true] {
        for v in 0..(if bs == 3 { 4 } else if bs == 15 { 8 } else { 10usize }) {
            c.go(json!({"e": "partition", "v": v, "bs": bs, "ua": u as u8, "la": l as u8}), None, |k, b, t, _| k.encode_partition(b, t, BLOCKS[bs], u, l, parts[v]));
        }
        // a block of 8x8 always has both halves inside the picture
        if bs > 3 { for v in 0..2usize {
            c.go(json!({"e": "split_or_horz", "v": v, "bs": bs, "ua": u as u8, "la": l as u8, "tab": part_table(&c.base, bs, u, l)}), None, |k, b, t, _| k.encode_split_or_horz(b, t, BLOCKS[bs], u, l, v as i32));
            c.go(json!({"e": "split_or_vert", "v": v, "bs": bs, "ua": u as u8, "la": l as u8, "tab": part_table(&c.base, bs, u, l)}), None, |k, b, t, _| k.encode_split_or_vert(b, t, BLOCKS[bs], u, l, v as i32));
        } }
    } } }
}
fn part_table(t: &CDF, bs: usize, u: bool, l: bool) -> Vec<i32> {
    let x = l as usize * 2 + u as usize;
    match bs { 6 => t.partition_w16[x].to_vec(), 9 => t.partition_w32[x].to_vec(), 12 => t.partition_w64[x].to_vec(), _ => t.partition_w128[x].to_vec() }
}

/// Elements that name their table directly: whole domains.
fn tabled(c: &mut Ctx, r: &mut Rng) {
    macro_rules! ix { ($e: expr, $v: expr, $i: expr, $f: expr) => {{ let mut j = plain($e, $v); j["i"] = json!($i); c.go(j, None, $f) }} }
    for v in 0..2usize {
        for i in 0..6usize { ix!("new_mv", v, [i], |k, b, t, _| k.encode_new_mv(b, t, v, i)); ix!("ref_mv", v, [i], |k, b, t, _| k.encode_ref_mv(b, t, v, i)); }
        for i in 0..2usize { ix!("zero_mv", v, [i], |k, b, t, _| k.encode_zero_mv(b, t, v, i)); }
        for i in 0..3usize { for at in 0..3usize {
            let mut st = [0usize; 8]; for x in st.iter_mut() { *x = r.below(3) as usize } st[at] = i;
            ix!("drl_mode", v, [i], |k, b, t, _| k.encode_drl_mode(b, t, v, at, &st));
        } }
        for i in 0..22usize {
            ix!("use_filter_intra", v, [i], |k, b, t, _| k.encode_use_filter_intra(b, t, v, i));
            ix!("compound_type", v, [i], |k, b, t, _| k.encode_compound_type(b, t, v, BLOCKS[i]));
            ix!("wedge_interintra", v, [i], |k, b, t, _| k.encode_wedge_interintra(b, t, v, BLOCKS[i]));
            ix!("use_obmc", v, [i], |k, b, t, _| k.encode_use_obmc(b, t, v, BLOCKS[i]));
            ix!("interintra", v, [i], |k, b, t, _| k.encode_interintra(b, t, v, BLOCKS[i]));
        }
        for m in 0..2usize { for p in 0..2usize {
            ix!("mv_sign", v, [m, p], |k, b, t, _| k.encode_mv_sign(b, t, v, m, p));
            ix!("mv_class0_bit", v, [m, p], |k, b, t, _| k.encode_mv_class0_bit(b, t, v, m, p));
            ix!("mv_class0_hp", v, [m, p], |k, b, t, _| k.encode_mv_class0_hp(b, t, v, m, p));
            ix!("mv_hp", v, [m, p], |k, b, t, _| k.encode_mv_hp(b, t, v, m, p));
            for i in 0..10usize { ix!("mv_bit", v, [m, p, i], |k, b, t, _| k.encode_mv_bit(b, t, v, i, m, p)); }
        } }
        for s in [0usize, 2, 3, 4, 5, 6, 7, 8] { ix!("has_palette_uv", v, [s], |k, b, t, _| k.encode_has_palette_uv(b, t, v, s)); }
        ix!("use_wiener", v, [0], |k, b, t, _| k.encode_use_wiener(b, t, v));
        ix!("use_sgrproj", v, [0], |k, b, t, _| k.encode_use_sgrproj(b, t, v));
        for x in 0..5usize { for p in 0..2usize { for e in 0..22usize { if r.chance(1, 3) { ix!("eob_extra", v, [x, p, e], |k, b, t, _| k.encode_eob_extra(b, t, v, x, p, e)); } } } }
    }
    let joint = |v| match v { 0 => MvJoint::MV_JOINT_ZERO, 1 => MvJoint::MV_JOINT_HNZVZ, 2 => MvJoint::MV_JOINT_HZVNZ, _ => MvJoint::MV_JOINT_HNZVNZ };
    for m in 0..2usize { for v in 0..4usize {
        let j = joint(v);
        ix!("mv_joint", v, [m], |k, b, t, _| k.encode_mv_joint(b, t, j, m));
        for p in 0..2usize {
            // the table has the size of an alphabet of four, the fourth value never used by three-step fractions
            ix!("mv_fr", v, [m, p], |k, b, t, _| k.encode_mv_fr(b, t, v, m, p));
            for x in 0..2usize { ix!("mv_class0_fr", v, [m, p, x], |k, b, t, _| k.encode_mv_class0_fr(b, t, v, x, m, p)); }
        }
    } for p in 0..2usize { for v in 0..11usize { ix!("mv_class", v, [m, p], |k, b, t, _| k.encode_mv_class(b, t, v, m, p)); } } }
    for v in 0..5usize { ix!("filter_intra_mode", v, [0], |k, b, t, _| k.encode_filter_intra_mode(b, t, v)); }
    for i in 0..22usize {
        for v in 0..3usize { ix!("motion_mode", v, [i], |k, b, t, _| k.encode_motion_mode(b, t, v, BLOCKS[i])); }
        for v in 0..4usize { ix!("interintra_mode", v, [i], |k, b, t, _| k.encode_interintra_mode(b, t, v, BLOCKS[i])); }
        for v in 0..16usize { if r.chance(1, 2) { ix!("wedge_index", v, [i], |k, b, t, _| k.encode_wedge_index(b, t, v, BLOCKS[i])); } }
    }
    for i in 0..7usize { for v in 0..7usize {
        ix!("palette_size_y_minus_2", v, [i], |k, b, t, _| k.encode_palette_size_y_minus_2(b, t, v, i));
        ix!("palette_size_uv_minus_2", v, [i], |k, b, t, _| k.encode_palette_size_uv_minus_2(b, t, v, i));
    } }
    for s in 2..9usize { for h in [2usize, 5, 6, 7, 8] { for v in 0..s {
        ix!("palette_color_idx_y", v, [h, s], |k, b, t, _| k.encode_palette_color_idx_y(b, t, v, h, s));
        ix!("palette_color_idx_uv", v, [h, s], |k, b, t, _| k.encode_palette_color_idx_uv(b, t, v, h, s));
    } } }
    for v in 0..4usize {
        ix!("delta_q_abs", v, [0], |k, b, t, _| k.encode_delta_q_abs(b, t, v));
        for i in 0..4usize { for m in 0..2usize { ix!("delta_lf_abs", v, [m, i], |k, b, t, _| k.encode_delta_lf_abs(b, t, v, m, i)); } }
    }
    for v in 0..8usize { ix!("cfl_alpha_signs", v, [0], |k, b, t, _| k.encode_cfl_alpha_signs(b, t, v)); }
    for s in 0..8usize { for v in 0..16usize {
        if (s + 1) / 3 != 0 { ix!("cfl_alpha_u", v, [s], |k, b, t, _| k.encode_cfl_alpha_u(b, t, v, s)); }
        if (s + 1) % 3 != 0 { ix!("cfl_alpha_v", v, [s], |k, b, t, _| k.encode_cfl_alpha_v(b, t, v, s)); }
    } }
    for v in 0..3usize { ix!("restoration_type", v, [0], |k, b, t, _| k.encode_restoration_type(b, t, v)); }
    for m in 0..6usize { for n in 0..6usize { for v in 0..8usize { ix!("compound_mode", v, [m, n], |k, b, t, _| k.encode_compound_mode(b, t, v, m, n)); } } }
    for u in -1..8i64 { for l in -1..8i64 { for ul in -1..8i64 {
        // the corner is there only with both sides
        if ul >= 0 && (u < 0 || l < 0) { continue }
        if r.chance(1, 2) { continue }
        let v = r.below(8) as usize;
        ix!("segment_id", v, [u, l, ul], |k, b, t, _| k.encode_segment_id(b, t, v, u as isize, l as isize, ul as isize));
    } } }
    // transform types of each set
    for t in 0..19usize { for ty in 0..16usize {
        let (w, h) = (tx_width[t], tx_height[t]);
        if w.max(h) > 32 { continue }
        let lo = w.min(h);
        for set in 1..4usize {
            let ok = match set { 1 => lo <= 8 && w.max(h) <= 16, 2 => lo == 16 && w.max(h) <= 16 && ty <= 11, _ => ty == 0 || ty == 9 };
            if ok { ix!("inter_tx_type", ty, [t, set], |k, b, c, _| k.encode_inter_tx_type(b, c, TYPES[ty], TXS[t], set)); }
        }
        if w.max(h) > 16 { continue }
        for set in 1..3usize {
            let types: &[usize] = if set == 1 { &[9, 0, 10, 11, 3, 1, 2] } else { &[9, 0, 3, 1, 2] };
            if !types.contains(&ty) || (set == 1 && lo > 8) { continue }
            for y in 0..13usize {
                if r.chance(3, 4) { continue }
                let fi = r.flip();
                let fm = r.below(5) as usize;
                ix!("intra_tx_type", ty, [t, set, fi as usize, fm, y], |k, b, c, _| k.encode_intra_tx_type(b, c, TYPES[ty], set, TXS[t], fi, fm, MODES[y]));
            }
        }
    } }
}

/// Elements over block and transform sizes of the neighbours.
fn sized(c: &mut Ctx, r: &mut Rng) {
    let mut p = Place::rand(r);
    let (row, col) = (p.row, p.col);
    let t = r.below(19) as usize;
    let depth = r.range(1, 4) as usize;
    let v = r.below(if depth == 1 { 2 } else { 3 }) as usize;
    let mut j = p.p("tx_depth", v);
    j["t"] = json!(t); j["depth"] = json!(depth);
    c.go(j, Some(&mut p.f), |k, b, cd, f| k.encode_tx_depth(b, cd, row, col, TXS[t], depth, f.unwrap(), v));

    let mut p = Place::rand(r);
    let (row, col) = (p.row, p.col);
    let (iu, il) = (row > 0 && p.f.mis[row - 1][col].is_some() && r.chance(1, 3), col > 0 && p.f.mis[row][col - 1].is_some() && r.chance(1, 3));
    let bs = loop { let b = r.below(22) as usize; if block_width[b].max(block_height[b]) >= 8 { break b } };
    let t = loop { let t = r.below(19) as usize; if tx_width[t].max(tx_height[t]) >= 8 && tx_width[t].max(tx_height[t]) <= block_width[bs].max(block_height[bs]) { break t } };
    let v = r.below(2) as usize;
    let mut j = p.p("txfm_split", v);
    j["t"] = json!(t); j["bs"] = json!(bs); j["iu"] = json!(iu); j["il"] = json!(il);
    c.go(j, Some(&mut p.f), |k, b, cd, f| k.encode_txfm_split(b, cd, row, col, if iu { row - 1 } else { row }, if il { col - 1 } else { col }, f.unwrap(), TXS[t], BLOCKS[bs], v));

    let mut p = Place::rand(r);
    let (row, col) = (p.row, p.col);
    let mut here = rand_mi(r);
    while here.intra { here = rand_mi(r) }
    // neighbours that share a reference are the interesting ones
    for (y, x) in [(row.wrapping_sub(1), col), (row, col.wrapping_sub(1))] { if y < 4 && x < 4 && r.chance(2, 3) { if let Some(m) = p.f.mis[y][x].as_mut() {
        let k = r.below(2) as usize;
        if k == 0 { m.ref_frame[0] = here.ref_frame[0] } else if !m.intra { m.ref_frame[1] = here.ref_frame[r.below(2) as usize] }
        m.intra = m.ref_frame[0] as i64 <= 0; m.is_inter = !m.intra; m.single = m.ref_frame[1] as i64 <= 0;
    } } }
    p.f.mis[row][col] = Some(here);
    let dir = r.below(2) as usize;
    let v = r.below(3) as usize;
    let mut j = p.p("interp_filter", v);
    j["dir"] = json!(dir);
    c.go(j, Some(&mut p.f), |k, b, cd, f| k.encode_interp_filter(b, cd, FILTERS[v], f.unwrap(), row, col, dir));

    let mut p = Place::rand(r);
    let (row, col) = (p.row, p.col);
    let v = r.below(2) as usize;
    let bits = r.range(1, 8) as usize;
    let on = r.chance(5, 6);
    let refs = [r.range(1, 7), r.range(1, 7)];
    let cur = r.below(1 << bits) as usize;
    let mut hints: Vec<usize> = (0..8).map(|_| r.below(1 << bits) as usize).collect();
    if r.flip() { let d = r.below(4) as usize; let m = 1usize << bits; hints[refs[0] as usize] = (cur + m * 4 - d) % m; hints[refs[1] as usize] = (cur + d) % m }
    let mut j = p.p("compound_idx", v);
    j["n"] = json!(bits); j["on"] = json!(on); j["hints"] = json!(hints); j["cur"] = json!(cur); j["refs"] = json!(refs);
    c.go(j, Some(&mut p.f), |k, b, cd, f| k.encode_compound_idx(b, cd, v, &hints, cur, &[rf(refs[0]), rf(refs[1])], f.unwrap(), row, col, on, bits));

    let mut p = Place::rand(r);
    let (row, col) = (p.row, p.col);
    let v = r.below(2) as usize;
    let ctx = r.below(7) as usize;
    let mut j = p.p("has_palette_y", v);
    j["i"] = json!([ctx]);
    c.go(j, Some(&mut p.f), |k, b, cd, f| k.encode_has_palette_y(b, cd, v, f.unwrap(), row, col, ctx));
}

/// Coefficient elements.
fn coefficients(c: &mut Ctx, r: &mut Rng) {
    // a picture of 16x16 units, the block's edges lined with equal neighbours
    let mut f = Frame::new(FrameType::KEY_FRAME, 64, 64);
    for x in f.mis.iter_mut() { for y in x.iter_mut() { *y = Some(rand_mi(r)) } }
    f.subsampling_x = r.flip();
    f.subsampling_y = f.subsampling_x && r.flip();
    let (sx, sy) = (f.subsampling_x as usize, f.subsampling_y as usize);
    let plane = r.below(3) as usize;
    let (px, py) = if plane > 0 { (sx, sy) } else { (0, 0) };
    let bs = loop { let b = r.below(22) as usize; if !(plane > 0 && sx == 1 && sy == 0 && block_height[b] > block_width[b]) { break b } };
    let (row, col) = ((r.below(8) * 2) as usize, (r.below(8) * 2) as usize);
    let (row, col) = (if r.chance(1, 4) { 0 } else { row }, if r.chance(1, 4) { 0 } else { col });
    // near the picture's corner, signs that cancel if counted right
    let corner = r.chance(1, 4);
    let (row, col) = if corner { (12 + 2 * r.below(2) as usize, 12 + 2 * r.below(2) as usize) } else { (row, col) };
    let mut u = if row == 0 { None } else { Some(rand_mi(r)) };
    let mut l = if col == 0 { None } else { Some(rand_mi(r)) };
    if corner {
        let s = 1 + r.below(2) as usize;
        u.as_mut().unwrap().dc_context[plane] = s as _;
        l.as_mut().unwrap().dc_context[plane] = (3 - s) as _;
    }
    if row > 0 { for x in col..16 { f.mis[row - 1][x] = u } }
    if col > 0 { for y in row..16 { f.mis[y][col - 1] = l } }
    let t = loop { let t = r.below(19) as usize; if tx_width[t] << px <= block_width[bs].max(4 << px) && tx_height[t] << py <= block_height[bs].max(4 << py) { break t } };
    let (w4, h4) = (tx_width[t] / 4, tx_height[t] / 4);
    let (x4, y4) = (col >> px, row >> py);
    let txc = r.below(5) as usize;
    let v = r.below(2) as usize;
    let ptype = (plane > 0) as usize;
    let head = |e: &str, v: usize| json!({"e": e, "v": v, "plane": plane, "bs": bs, "t": t, "txc": txc, "sx": px, "sy": py, "x4": x4, "y4": y4, "w4": w4, "h4": h4,
        "mx": 16 >> px, "my": 16 >> py, "u": opt_json(&u), "l": opt_json(&l)});
    c.go(head("all_zero", v), Some(&mut f), |k, b, cd, f| k.encode_all_zero(b, cd, v, plane, TXS[t], txc, f.unwrap(), BLOCKS[bs], row, col, w4, h4, x4, y4));
    c.go(head("dc_sign", v), Some(&mut f), |k, b, cd, f| k.encode_dc_sign(b, cd, v, ptype, f.unwrap(), plane, row, col, w4, h4, x4, y4));

    // transform type dependent
    let t = r.below(19) as usize;
    let adj = adjusted_tx_size[t] as usize;
    let size = tx_width[adj] * tx_height[adj];
    let mut f = Frame::new(FrameType::KEY_FRAME, 16, 16);
    for x in f.mis.iter_mut() { for y in x.iter_mut() { *y = Some(rand_mi(r)) } }
    let (lossless, inter, reduced) = (r.chance(1, 8), r.chance(2, 3), r.chance(1, 6));
    let uv = r.below(14) as usize;
    let (row, col) = (r.below(4) as usize, r.below(4) as usize);
    f.subsampling_x = r.flip();
    f.subsampling_y = f.subsampling_x && r.flip();
    let (x4, y4) = ((col + r.below(2) as usize).min(3) >> f.subsampling_x as usize, (row + r.below(2) as usize).min(3) >> f.subsampling_y as usize);
    // steer to one-dimensional types half the time
    if r.flip() { for x in f.mis.iter_mut() { for y in x.iter_mut() { y.as_mut().unwrap().tx_type = TYPES[10 + r.below(6) as usize] } } }
    let types: Vec<Vec<i64>> = f.mis.iter().map(|x| x.iter().map(|m| m.as_ref().unwrap().tx_type as i64).collect()).collect();
    let j = |e: &str, v: usize| json!({"e": e, "v": v, "plane": plane, "t": t, "lossless": lossless, "inter": inter, "reduced": reduced, "uv": uv,
        "row": row, "col": col, "x4": x4, "y4": y4, "sx": f.subsampling_x as u8, "sy": f.subsampling_y as u8, "ty": types, "txc": txc, "ptype": ptype});
    let which = r.below(7) as usize;
    let nsym = 5 + which;
    let v = r.below(nsym as u64) as usize;
    let je = j(["eob_pt_16", "eob_pt_32", "eob_pt_64", "eob_pt_128", "eob_pt_256", "eob_pt_512", "eob_pt_1024"][which], v);
    macro_rules! eob { ($m: ident) => { c.go(je, Some(&mut f), |k, b, cd, f| k.$m(b, cd, v, f.unwrap(), row, col, MODES[uv], lossless, inter, reduced, plane, TXS[t], x4, y4, ptype)) } }
    let jb = j("coeff_base", 0);
    let jbe = j("coeff_base_eob", 0);
    let jbr = j("coeff_br", 0);
    match which { 0 => eob!(encode_eob_pt_16), 1 => eob!(encode_eob_pt_32), 2 => eob!(encode_eob_pt_64), 3 => eob!(encode_eob_pt_128), 4 => eob!(encode_eob_pt_256), 5 => eob!(encode_eob_pt_512), _ => eob!(encode_eob_pt_1024) }
    let dense = r.below(4);
    let q: Vec<isize> = (0..size).map(|_| match dense { 0 => r.range(-1, 1), 1 => r.range(-4, 4), 2 => if r.chance(1, 6) { r.range(-40000, 40000) } else { 0 }, _ => r.range(-20, 20) } as isize).collect();
    let mut scan: Vec<usize> = (0..size).collect();
    for i in (1..size).rev() { let k = r.below(i as u64 + 1) as usize; scan.swap(i, k) }
    let ci = if r.chance(1, 3) { r.below(size.min(6) as u64) as usize } else { r.below(size as u64) as usize };
    // favour the low frequencies
    if r.flip() { let w = tx_width[adj]; let pos = r.below(4.min(tx_height[adj]) as u64) as usize * w + r.below(4.min(w) as u64) as usize; let k = scan.iter().position(|x| *x == pos).unwrap(); scan.swap(ci, k) }
    let pos = scan[ci];
    // only what the rule can look at is recorded: the five rows and columns from the position
    let w = tx_width[adj];
    let mut win = vec![];
    for y in 0..5 { for x in 0..5 { let (yy, xx) = (pos / w + y, pos % w + x); win.push(if yy < tx_height[adj] && xx < w { q[yy * w + xx] } else { 0 }) } }
    let fill = |mut j: Value, v: usize| { j["v"] = json!(v); j["c"] = json!(ci); j["pos"] = json!(pos); j["win"] = json!(win); j };
    let v = r.below(4) as usize;
    c.go(fill(jb, v), Some(&mut f), |k, b, cd, f| k.encode_coeff_base(b, cd, v, TXS[t], txc, ptype, plane, x4, y4, &scan, ci, f.unwrap(), lossless, inter, reduced, MODES[uv], row, col, &q));
    let v = r.below(3) as usize;
    c.go(fill(jbe, v), Some(&mut f), |k, b, cd, f| k.encode_coeff_base_eob(b, cd, v, TXS[t], txc, ptype, plane, x4, y4, &scan, ci, f.unwrap(), lossless, inter, reduced, MODES[uv], row, col, &q));
    let v = r.below(4) as usize;
    c.go(fill(jbr, v), Some(&mut f), |k, b, cd, f| k.encode_coeff_br(b, cd, v, f.unwrap(), txc, lossless, inter, reduced, MODES[uv], pos, ptype, TXS[t], x4, y4, plane, &q, row, col));
}
