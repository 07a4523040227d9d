//! Mode information of blocks (C18) and motion vector candidates (C19): the real tile encoder codes one to three
//! blocks of a segment, each between neighbours of a consistent layout.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::block::*;
use av1enc::verif::cdf::*;
use av1enc::verif::common::MotionVector;
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::*;
use av1enc::verif::tile_encoder::TileEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
#[path = "../blk.rs"]
mod blk;
#[path = "../cdfwalk.rs"]
mod cdfwalk;
use blk::*;

fn main() { suite_main(run) }

const W: [usize; 22] = [4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64];
const H: [usize; 22] = [4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16];
const NO_MV: isize = -1 << 15;

fn yx(m: &MotionVector) -> Value { json!([m.y, m.x]) }
fn mi_json(m: &ModeInfo) -> Value {
    json!({"bs": m.mi_size as i64, "inter": m.is_inter, "skip": m.skip, "r0": m.ref_frame[0] as i64, "r1": m.ref_frame[1] as i64, "seg": m.segment_id,
        "mode": m.y_mode as i64, "mv": [yx(&m.mvs[0]), yx(&m.mvs[1])]})
}
fn opt_json(m: &Option<ModeInfo>) -> Value { match m { Some(m) => json!([mi_json(m)]), None => json!([]) } }

/// what a frame's motion vectors look like: step of the precision, a few favourites so that candidates meet
struct Mvs { unit: i64, fav: Vec<(i64, i64)> }
impl Mvs {
    fn new(r: &mut Rng, unit: i64) -> Mvs {
        let mut m = Mvs { unit, fav: vec![(0, 0)] };
        for _ in 0..r.range(1, 4) { let v = m.fresh(r); m.fav.push(v) }
        m
    }
    fn comp(&self, r: &mut Rng) -> i64 {
        let v = match r.below(8) {
            0 => 0,
            1 => r.range(-2, 2),
            2 => r.range(-40, 40),
            3 => { let s = 1i64 << r.below(14); (if r.flip() { s } else { -s }) + r.range(-9, 9) }
            4 => *r.pick(&[8192, -8192, 8191, -8191, 8184, -8184]),
            _ => r.range(-600, 600),
        };
        v.max(-8192).min(8192)
    }
    fn fresh(&self, r: &mut Rng) -> (i64, i64) { let (a, b) = (self.comp(r), self.comp(r)); (a / self.unit * self.unit, b / self.unit * self.unit) }
    /// one the syntax can express
    fn good(&self, r: &mut Rng) -> MotionVector {
        let (y, x) = if r.chance(1, 3) { *r.pick(&self.fav) } else { self.fresh(r) };
        MotionVector::new(x as isize, y as isize)
    }
    /// close to none at all, at the distance where that matters
    fn little(&self, r: &mut Rng) -> MotionVector {
        let mut d = [r.range(-9, 9) as isize, r.range(-9, 9) as isize];
        if r.chance(2, 3) { d[r.below(2) as usize] = *r.pick(&[15, 16, 17, -15, -16, -17]) }
        MotionVector::new(d[0], d[1])
    }
    /// of a neighbour: perhaps of higher precision than this frame has
    fn any(&self, r: &mut Rng) -> MotionVector {
        let mut m = self.good(r);
        if r.chance(1, 4) { m.x = (m.x + r.range(-7, 7) as isize).max(-8192).min(8192); m.y = (m.y + r.range(-7, 7) as isize).max(-8192).min(8192) }
        m
    }
}

fn rand_refs(r: &mut Rng) -> [i64; 2] {
    match r.below(4) { 0 => *r.pick(&[[1, 2], [1, 3], [1, 4], [5, 7]]), 1 => [r.range(1, 4), r.range(5, 7)], _ => [r.range(1, 7), -1] }
}
fn rand_mi(r: &mut Rng, mv: &Mvs, last: usize, near: &[i64; 2], crowd: bool) -> ModeInfo {
    let mut m = mode_info();
    let p = match if crowd && r.chance(5, 6) { 2 } else { r.below(6) } { 0 => [0, -1], 1 => [r.range(1, 7), 0], 2 | 3 => *near, _ => rand_refs(r) };
    m.ref_frame = [rf(p[0]), rf(p[1])];
    m.intra = p[0] <= 0;
    m.is_inter = p[0] > 0;
    m.single = p[1] <= 0;
    m.skip = r.flip();
    m.segment_id = r.below(last as u64 + 1) as usize;
    m.y_mode = MODES[if p[0] <= 0 { r.range(0, 12) } else if p[1] <= 0 { r.range(14, 17) } else { r.range(18, 25) } as usize];
    for k in 0..2 { m.mvs[k] = mv.any(r) }
    m
}
/// blocks side by side over cells from..to (to excluded) of a line, none starting before lo
fn line(r: &mut Rng, from: usize, to: usize, lo: usize, dim: &[usize; 22], most: usize, mut make: impl FnMut(&mut Rng) -> ModeInfo) -> Vec<(usize, ModeInfo)> {
    let mut v = vec![];
    let mut p = from;
    while p < to {
        let b = r.below(22) as usize;
        let n = dim[b] / 4;
        if n > most { continue }
        let start = p - p % n;
        if start < lo || (p != from && start != p) { continue }
        let mut m = make(r);
        m.mi_size = BLOCKS[b];
        while p < to && p < start + n { v.push((p, m)); p += 1 }
    }
    v
}

fn one(o: &mut Out, r: &mut Rng, coder: &mut BoolCoder, scan: bool) {
    let sb = if r.flip() { 64 } else { 128 };
    let (w, h) = (8 * r.range(1, 40) as usize - r.below(3) as usize, 8 * r.range(1, 40) as usize - r.below(3) as usize);
    let mut f = Frame::new(FrameType::KEY_FRAME, w, h);
    let (rows, cols) = (f.mi_rows(), f.mi_cols());
    // the tile: from and to superblock boundaries or the frame's end
    let cut = |r: &mut Rng, n: usize| { let s4 = sb / 4; let k = (n + s4 - 1) / s4; let a = r.below(k as u64) as usize; let b = r.range(a as i64 + 1, k as i64) as usize; (a * s4, (b * s4).min(n)) };
    let ((r0, r1), (c0, c1)) = (cut(r, rows), cut(r, cols));
    let fint = r.chance(1, 4);
    let hp = !fint && r.flip();
    f.force_integer_mv = fint as usize;
    f.allow_high_precision_mv = hp;
    f.use_ref_frame_mvs = r.chance(3, 4);
    f.subsampling_x = r.flip();
    f.subsampling_y = f.subsampling_x && r.flip();
    f.allow_intrabc = r.chance(1, 6);
    f.reference_select = r.chance(3, 4);
    f.cdef_params.cdef_bits = r.below(4) as u8;
    f.delta_q_params.delta_q_present = true;
    f.delta_q_params.delta_q_res = r.below(4) as u8;
    f.delta_lf_params.delta_lf_present = r.chance(2, 3);
    f.delta_lf_params.delta_lf_multi = r.flip();
    f.delta_lf_params.delta_lf_res = r.below(4) as u8;
    let mut ecx = EncoderContext::new();
    // segmentation: what features exist decides whether the id comes first and the largest id
    let segon = r.chance(2, 3);
    let (mut pre, mut last) = (false, 0);
    f.segmentation_params.segmentation_enabled = segon;
    let rich = r.below(3);
    for id in 0..8 { for ft in 0..8 {
        let v = r.chance(rich, if ft < 5 { 12 } else { 24 });
        f.segmentation_params.feature_value[id][ft] = if v { Some(if ft == 5 { r.range(0, 7) } else if ft > 5 { 0 } else { r.range(-20, 20) } as isize) } else { None };
        if v && segon { last = id; pre = pre || ft >= 5 }
    } }
    ecx.seg_id_pre_skip = pre;
    ecx.last_active_seg_id = last;
    for id in 0..8 { ecx.lossless_array[id] = r.chance(1, 3) }
    ecx.frame_is_intra = true;
    ecx.coded_lossless = r.chance(1, 6);
    ecx.enable_cdef = r.chance(5, 6);
    ecx.use_128x128_superblock = sb == 128;
    ecx.num_planes = if r.chance(1, 4) { 1 } else { 3 };
    ecx.current_q_index = match r.below(3) { 0 => r.range(1, 20), 1 => r.range(236, 255), _ => r.range(1, 255) } as usize;
    for i in 0..4 { ecx.delta_lf[i] = r.range(-63, 63) as isize }
    let mv = Mvs::new(r, if fint { 8 } else if hp { 1 } else { 2 });
    let still = r.chance(1, 3);
    for k in 1..8 {
        ecx.gm_type[k] = if still { 0 } else { r.below(4) as usize };
        let small = r.flip();
        for j in 0..6 {
            let d = if small { r.range(-40, 40) } else { r.range(-3000, 3000) };
            ecx.gm_params[k][j] = (if j < 2 { d * 512 } else if j == 2 || j == 5 { 65536 + d } else { d }) as isize;
        }
    }
    let dens = r.below(3);
    ecx.motion_field_mvs = (0..8).map(|_| (0..(rows / 2 + 1)).map(|_| (0..(cols / 2 + 1)).map(|_| if r.chance(dens, 3) { if still && r.flip() { mv.little(r) } else { mv.any(r) } } else { MotionVector::new(NO_MV, NO_MV) }).collect()).collect()).collect();
    // cdef: per 64x64 known or not; the cells between mean nothing
    let (uy, ux) = (rows / 16 + 3, cols / 16 + 3);
    f.cdef_idx = vec![vec![-9; ux * 16]; uy * 16];
    for y in 0..uy { for x in 0..ux { f.cdef_idx[y * 16][x * 16] = if r.chance(2, 3) { -1 } else { r.below(8) as isize } } }
    let cdef0: Vec<Vec<isize>> = (0..uy).map(|y| (0..ux).map(|x| f.cdef_idx[y * 16][x * 16]).collect()).collect();

    let (q0, lf0) = (ecx.current_q_index, ecx.delta_lf);
    let (lossless, encdef, planes, gm_type, gm_params) = (ecx.coded_lossless, ecx.enable_cdef, ecx.num_planes, ecx.gm_type, ecx.gm_params);
    let larr = ecx.lossless_array;
    let ectx = Rc::new(RefCell::new(ecx));
    let mut bits = vec![];
    let mut err = String::new();
    let mut list = vec![];
    coder.init_encoder();
    let mut te = TileEncoder::new(&ectx, coder);
    te.mi_row_start = r0;
    te.mi_row_end = r1;
    te.mi_col_start = c0;
    te.mi_col_end = c1;
    let before = Box::new(te.cdf);
    for _ in 0..r.range(1, 3) {
        let b = loop { let b = r.below(22) as usize; if W[b] <= sb && H[b] <= sb { break b } };
        let (bw4, bh4) = (W[b] / 4, H[b] / 4);
        let at = |r: &mut Rng, lo: usize, hi: usize, n: usize| { let k = r.range((lo / n) as i64, ((hi - 1) / n) as i64) as usize * n; k };
        let (row, col) = (at(r, r0, r1, bh4), at(r, c0, c1, bw4));
        let given = rand_refs(r);
        // neighbours
        f.mis = vec![vec![None; cols]; rows];
        let near = [given[0], given[1]];
        let crowd = r.chance(1, 6);         // many neighbours with the same references
        let most = if crowd { 2 } else { 32 };
        if row > r0 {
            let top = if col > c0 { col - 1 } else { col };
            for (x, m) in line(r, top, (col + bw4).min(c1), c0, &W, most, |r| rand_mi(r, &mv, last, &near, crowd)) { f.mis[row - 1][x] = Some(m) }
            if col + bw4 < c1 && r.flip() { let mut m = rand_mi(r, &mv, last, &near, crowd); m.mi_size = BLOCKS[r.below(22) as usize]; f.mis[row - 1][col + bw4] = Some(m) }
        }
        if col > c0 { for (y, m) in line(r, row, (row + bh4).min(r1), r0, &H, most, |r| rand_mi(r, &mv, last, &near, crowd)) { f.mis[y][col - 1] = Some(m) } }
        let cell = |f: &Frame, y: i64, x: i64| if y < r0 as i64 || x < c0 as i64 || y >= r1 as i64 || x >= c1 as i64 { json!([]) } else { opt_json(&f.mis[y as usize][x as usize]) };
        let (ri, ci) = (row as i64, col as i64);
        // contexts the encoder does not derive
        te.ref_mv_context = r.below(6) as usize;
        te.new_mv_context = r.below(6) as usize;
        for i in 0..8 { te.drl_ctx_stack[i] = r.below(3) as usize }
        te.avail_u = r.flip();
        te.avail_l = r.flip();
        te.skip = r.flip();
        te.lossless = r.flip();
        te.palette_size_y = r.below(8) as usize;
        te.palette_size_uv = r.below(8) as usize;
        let deltas = r.chance(3, 4);
        let (qnow, lfnow) = { let mut e = ectx.borrow_mut(); e.read_deltas = deltas; (e.current_q_index as i64, e.delta_lf) };
        // the block
        let mut p = PartitionTree::new(BLOCKS[b]);
        p.segment_id = r.below(last as u64 + 1) as usize;
        p.skip = r.flip();
        p.cdef_idx = r.below(1 << f.cdef_params.cdef_bits) as isize;
        let step = |r: &mut Rng, now: i64, res: u8, lo: i64, hi: i64| {
            let (a, z) = (-((now - lo) >> res), (hi - now) >> res);
            let d = match r.below(4) { 0 => r.range(-4, 4).max(a).min(z), 1 => if r.flip() { a } else { z }, 2 => { let s = 1 << r.below(8); (if r.flip() { s } else { -s } + r.range(-1, 2)).max(a).min(z) }, _ => r.range(a, z) };
            now + (d << res)
        };
        p.q_index = step(r, qnow, f.delta_q_params.delta_q_res, 1, 255) as usize;
        for i in 0..4 { p.delta_lf[i] = step(r, lfnow[i] as i64, f.delta_lf_params.delta_lf_res, -63, 63) as isize }
        p.is_inter = r.chance(7, 8);
        p.ref_frame = [rf(given[0]), rf(given[1])];
        p.comp_mode = if given[1] > 0 { CompMode::COMPOUND_REFERENCE } else { CompMode::SINGLE_REFERENCE };
        p.comp_ref_type = if (given[0] < 5) == (given[1] < 5) { CompRefType::UNIDIR_COMP_REFERENCE } else { CompRefType::BIDIR_COMP_REFERENCE };
        p.compound_mode = MODES[r.range(18, 25) as usize];
        p.new_mv = r.flip();
        p.zero_mv = r.flip();
        p.ref_mv = r.flip();
        for i in 0..8 { p.drl_mode[i] = r.below(2) as usize }
        for k in 0..2 { p.mvs[k] = mv.good(r) }
        let g = json!({"seg": p.segment_id, "skip": p.skip as u8, "cdef": p.cdef_idx, "q": p.q_index, "lf": p.delta_lf, "is_inter": p.is_inter as u8, "r0": given[0], "r1": given[1],
            "pair": p.compound_mode as i64 - 18, "new_mv": p.new_mv as u8, "zero_mv": p.zero_mv as u8, "ref_mv": p.ref_mv as u8, "drl": &p.drl_mode[..4], "mvs": [yx(&p.mvs[0]), yx(&p.mvs[1])]});
        let (rc, nc, dc) = (te.ref_mv_context, te.new_mv_context, te.drl_ctx_stack);
        let mut sbk = Superblock::new(BLOCKS[b], col * 4, row * 4);
        let e = guard(|| te.encode_block(&mut sbk, row, col, &mut f, &mut bits, &mut p));
        if let Err(m) = e { err = m }
        let refs = [p.ref_frame[0] as i64, p.ref_frame[1] as i64];
        let x = ectx.borrow();
        let mut blk = json!({"r": row, "c": col, "bs": b, "u": cell(&f, ri - 1, ci), "l": cell(&f, ri, ci - 1), "ul": if row > r0 && col > c0 { cell(&f, ri - 1, ci - 1) } else { json!([]) }, "deltas": deltas, "g": g,
            "mv": {"n": te.num_mv_found, "stack": te.ref_stack_mv.iter().map(|s| json!([yx(&s[0]), yx(&s[1])])).collect::<Vec<_>>(),
                "global": [yx(&te.global_mvs[0]), yx(&te.global_mvs[1])], "new": nc, "zero": te.zero_mv_context, "ref": rc, "drl": &dc[..4]},
            "a": {"seg": p.segment_id, "skip": p.skip as u8, "is_inter": p.is_inter as u8, "r0": refs[0], "r1": refs[1], "comp": p.comp_mode as i64,
                "mode": te.y_mode, "idx": te.ref_mv_idx, "mvs": [yx(&p.mvs[0]), yx(&p.mvs[1])], "q": x.current_q_index, "lf": x.delta_lf, "deltas": x.read_deltas, "lossless": te.lossless,
                "pal": te.palette_size_y + te.palette_size_uv, "pos": [te.mi_row, te.mi_col, te.mi_size as usize],
                "has": te.has_chroma, "av": [te.avail_u, te.avail_l, te.avail_u_chroma, te.avail_l_chroma]}});
        if scan && err.is_empty() && p.is_inter {
            let (sw, sh) = (if bw4 >= 16 { 4 } else { 2 }, if bh4 >= 16 { 4 } else { 2 });
            let mut tpl = vec![];
            for y in (0..bh4.min(16)).step_by(sh) { for x2 in (0..bw4.min(16)).step_by(sw) {
                let (y8, x8) = (((row + y) | 1) >> 1, ((col + x2) | 1) >> 1);
                let s = |k: i64| if k > 0 && y8 < x.motion_field_mvs[0].len() && x8 < x.motion_field_mvs[0][0].len() { let m = x.motion_field_mvs[k as usize][y8][x8]; if m.x == NO_MV { json!([]) } else { json!([yx(&m)]) } } else { json!([]) };
                tpl.push(json!([s(refs[0]), s(refs[1])]));
            } }
            blk["scan"] = json!({"above": (0..bw4 as i64).map(|k| cell(&f, ri - 1, ci + k)).collect::<Vec<_>>(), "left": (0..bh4 as i64).map(|k| cell(&f, ri + k, ci - 1)).collect::<Vec<_>>(),
                "corner": cell(&f, ri - 1, ci + bw4 as i64), "tpl": tpl, "weights": te.weight_stack, "newc": te.new_mv_count, "close": te.close_matches,
                "gm": [if refs[0] > 0 { json!({"t": gm_type[refs[0] as usize], "p": gm_params[refs[0] as usize]}) } else { json!({"t": 0, "p": [0, 0, 0, 0, 0, 0]}) },
                       if refs[1] > 0 { json!({"t": gm_type[refs[1] as usize], "p": gm_params[refs[1] as usize]}) } else { json!({"t": 0, "p": [0, 0, 0, 0, 0, 0]}) }]});
        }
        drop(x);
        list.push(blk);
        if !err.is_empty() { break }
    }
    let after = Box::new(te.cdf);
    let mut tabs = serde_json::Map::new();
    for (a, b) in cdfwalk::tables(&before).into_iter().zip(cdfwalk::tables(&after)) { if a.1 != b.1 { tabs.insert(a.0, json!(b.1)); } }
    drop(te);
    if err.is_empty() { if let Err(m) = guard(|| coder.exit_encoder(&mut bits)) { err = m } } else { *coder = BoolCoder::new() }
    // what changed of the frame's cdef record
    let mut cdef1 = vec![];
    for y in 0..uy * 16 { for x in 0..ux * 16 {
        let was = if y % 16 == 0 && x % 16 == 0 { cdef0[y / 16][x / 16] } else { -9 };
        if f.cdef_idx[y][x] != was { cdef1.push(json!([y, x, f.cdef_idx[y][x]])) }
    } }
    let feat: Vec<Vec<Vec<isize>>> = f.segmentation_params.feature_value.iter().map(|s| s.iter().map(|v| v.iter().cloned().collect()).collect()).collect();
    let mut rec = json!({"f": {"rows": rows, "cols": cols, "tile": [r0, r1, c0, c1], "sx": f.subsampling_x, "sy": f.subsampling_y, "pre": pre, "segon": segon, "last": last, "feat": feat, "larr": larr,
        "lossless": lossless, "encdef": encdef, "ibc": f.allow_intrabc, "bits": f.cdef_params.cdef_bits, "sb": sb, "qres": f.delta_q_params.delta_q_res, "lfon": f.delta_lf_params.delta_lf_present,
        "multi": f.delta_lf_params.delta_lf_multi, "lfres": f.delta_lf_params.delta_lf_res, "planes": planes, "refsel": f.reference_select, "fint": fint, "hp": hp, "temporal": f.use_ref_frame_mvs},
        "q0": q0, "lf0": lf0, "cdef0": cdef0, "blocks": list, "err": err});
    if !scan { rec["bits"] = json!(bits); rec["tabs"] = Value::Object(tabs); rec["cdef1"] = json!(cdef1) }
    o.rec(rec);
}

/// the vector of a block copied from the same frame
fn copied(o: &mut Out, r: &mut Rng, coder: &mut BoolCoder) {
    let mut f = Frame::new(FrameType::KEY_FRAME, 640, 640);
    let sb: usize = if r.flip() { 64 } else { 128 };
    let fint = r.chance(3, 4);
    let hp = !fint && r.flip();
    f.allow_intrabc = true;
    f.force_integer_mv = fint as usize;
    f.allow_high_precision_mv = hp;
    let mut ecx = EncoderContext::new();
    ecx.use_128x128_superblock = sb == 128;
    ecx.frame_is_intra = true;
    let ectx = Rc::new(RefCell::new(ecx));
    let mv = Mvs::new(r, if fint { 8 } else if hp { 1 } else { 2 });
    let (mut bits, mut err) = (vec![], String::new());
    coder.init_encoder();
    let mut te = TileEncoder::new(&ectx, coder);
    let s4 = sb / 4;
    te.mi_row_start = s4 * r.below(3) as usize;
    te.mi_row_end = 160;
    te.mi_col_start = s4 * r.below(3) as usize;
    te.mi_col_end = 160;
    te.mi_row = match r.below(3) { 0 => te.mi_row_start, 1 => (te.mi_row_start + s4).min(158), _ => r.range(te.mi_row_start as i64, 158) as usize };
    te.mi_col = r.range(te.mi_col_start as i64, 158) as usize;
    te.y_mode = r.below(26) as usize;
    te.ref_mv_idx = r.below(4) as usize;
    te.num_mv_found = r.below(5) as usize;
    for k in 0..8 { for j in 0..2 { te.ref_stack_mv[k][j] = if k < 2 && r.chance(2, 3) { MotionVector::new(0, 0) } else { mv.good(r) } } }
    // zero in one direction only is not zero
    if r.chance(1, 4) { te.ref_stack_mv[0][0] = MotionVector::new(0, 8 * r.range(-9, 9) as isize) }
    let before = Box::new(te.cdf);
    let mut p = PartitionTree::new(BLOCKS[r.below(22) as usize]);
    p.use_intrabc = true;
    p.mvs[0] = mv.good(r);
    let (given, stack) = (yx(&p.mvs[0]), te.ref_stack_mv.iter().map(|s| json!([yx(&s[0]), yx(&s[1])])).collect::<Vec<_>>());
    if let Err(m) = guard(|| te.assign_mv(false, &mut f, &mut bits, &mut p)) { err = m }
    let after = Box::new(te.cdf);
    let mut tabs = serde_json::Map::new();
    for (a, b) in cdfwalk::tables(&before).into_iter().zip(cdfwalk::tables(&after)) { if a.1 != b.1 { tabs.insert(a.0, json!(b.1)); } }
    let (row, tile) = (te.mi_row, [te.mi_row_start, te.mi_row_end, te.mi_col_start, te.mi_col_end]);
    drop(te);
    if err.is_empty() { if let Err(m) = guard(|| coder.exit_encoder(&mut bits)) { err = m } } else { *coder = BoolCoder::new() }
    o.rec(json!({"r": row, "sb": sb, "tile": tile, "fint": fint, "hp": hp, "stack": stack, "given": given, "kept": yx(&p.mvs[0]), "bits": bits, "tabs": Value::Object(tabs), "err": err}));
}

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 18);
    let mut coder = BoolCoder::new();
    if a.extra == "copy" {
        for _ in 0..a.n { copied(&mut o, &mut r, &mut coder) }
        return
    }
    for _ in 0..a.n { one(&mut o, &mut r, &mut coder, a.extra == "scan") }
}
