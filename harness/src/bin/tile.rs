//! Whole tiles (C20): the real tile encoder codes one tile of a frame.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::block::*;
use av1enc::verif::cdf::*;
use av1enc::verif::common::MotionVector;
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::*;
use av1enc::verif::obu::*;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc::verif::tile_encoder::TileEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
#[path = "../blk.rs"]
mod blk;
#[path = "../cdfwalk.rs"]
mod cdfwalk;
#[path = "../units.rs"]
mod units;
use units::*;

fn main() { suite_main(run) }

const NO_MV: isize = -1 << 15;

#[allow(dead_code)]
fn opt_json(m: &Option<ModeInfo>) -> Value { match m { Some(m) => json!([mi_json(m)]), None => json!([]) } }

/// what a frame's motion vectors look like: step of the precision, a few favourites so that candidates meet
struct Mvs { unit: i64, fav: Vec<(i64, i64)> }
impl Mvs {
    fn new(r: &mut Rng, unit: i64) -> Mvs {
        let mut m = Mvs { unit, fav: vec![(0, 0)] };
        for _ in 0..r.range(1, 4) { let v = m.fresh(r); m.fav.push(v) }
        m
    }
    fn comp(&self, r: &mut Rng) -> i64 {
        let v = match r.below(8) {
            0 => 0,
            1 => r.range(-2, 2),
            2 => r.range(-40, 40),
            3 => { let s = 1i64 << r.below(14); (if r.flip() { s } else { -s }) + r.range(-9, 9) }
            4 => *r.pick(&[8192, -8192, 8191, -8191, 8184, -8184]),
            _ => r.range(-600, 600),
        };
        v.max(-8192).min(8192)
    }
    fn fresh(&self, r: &mut Rng) -> (i64, i64) { let (a, b) = (self.comp(r), self.comp(r)); (a / self.unit * self.unit, b / self.unit * self.unit) }
    /// one the syntax can express
    fn good(&self, r: &mut Rng) -> MotionVector {
        let (y, x) = if r.chance(1, 3) { *r.pick(&self.fav) } else { self.fresh(r) };
        MotionVector::new(x as isize, y as isize)
    }
    /// of a neighbour: perhaps of higher precision than this frame has
    fn any(&self, r: &mut Rng) -> MotionVector {
        let mut m = self.good(r);
        if r.chance(1, 4) { m.x = (m.x + r.range(-7, 7) as isize).max(-8192).min(8192); m.y = (m.y + r.range(-7, 7) as isize).max(-8192).min(8192) }
        m
    }
}

/// superblocks where tiles start
fn cuts(r: &mut Rng, n: usize, per: u64) -> Vec<usize> {
    let mut v = vec![0];
    for k in 1..n { if r.chance(1, per) { v.push(k) } }
    v
}

struct Set { f: Frame, e: EncoderContext, tile: usize, rs: Vec<usize>, cs: Vec<usize>, w: usize, h: usize, sb: usize, pre: bool, segon: bool, last: usize,
    fint: bool, hp: bool, gm: Vec<Value>, field: Value, types: Vec<usize>, sizes: [usize; 3], units: Vec<Vec<Vec<Vec<Vec<Value>>>>>, uy: usize, ux: usize }
impl Set {
    fn cdef(&self) -> Vec<Vec<isize>> { cdef_json(&self.f, self.uy, self.ux) }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind { Small, Many, Long }   // of any shape; of several tiles; of tiles that take many bytes
/// A frame cut into tiles, and one of them.
fn setup(r: &mut Rng, kind: Kind) -> Set {
    let big = kind == Kind::Long;
    let sb: usize = if kind != Kind::Small || r.chance(3, 4) { 64 } else { 128 };
    let most = if big { 10 } else if kind == Kind::Many { 7 } else if sb == 64 { 3 } else { 2 };
    let side = |r: &mut Rng| match if kind == Kind::Small { r.below(3) } else { 3 } {
        3 => sb * (if big { most - 1 } else { r.range(0, most - 1) }) as usize + 8 * r.range(1, 8) as usize,
        0 => sb * r.range(1, most - 1) as usize + 8 * r.range(0, 3) as usize,
        1 => 8 * r.range(1, sb as i64 / 8) as usize,
        _ => 8 * r.range(1, most * sb as i64 / 8) as usize,
    } - r.below(8) as usize;
    let (w, h) = (side(r), side(r));
    let mut f = Frame::new(FrameType::KEY_FRAME, w, h);
    let (rows, cols) = (f.mi_rows(), f.mi_cols());
    let s4 = sb / 4;
    let (nr, nc) = ((rows + s4 - 1) / s4, (cols + s4 - 1) / s4);
    let mut e = EncoderContext::new();
    let per = match kind { Kind::Small => 3, Kind::Many => 1 + r.below(2), Kind::Long => 11 };
    f.tile_row_starts = cuts(r, nr, per);
    f.tile_col_starts = cuts(r, nc, per);
    let ends = |v: &Vec<usize>, n: usize| -> Vec<usize> { v.iter().map(|k| k * s4).chain(std::iter::once(n)).collect() };
    e.mi_row_starts = ends(&f.tile_row_starts, rows);
    e.mi_col_starts = ends(&f.tile_col_starts, cols);
    let (rs, cs) = (e.mi_row_starts.clone(), e.mi_col_starts.clone());
    let tile = r.below(f.num_tiles() as u64) as usize;
    e.tile_num = tile;
    let fint = r.chance(1, 4);
    let hp = !fint && r.flip();
    f.force_integer_mv = fint as usize;
    f.allow_high_precision_mv = hp;
    f.use_ref_frame_mvs = r.flip();
    f.subsampling_x = r.flip();
    f.subsampling_y = f.subsampling_x && r.flip();
    f.allow_intrabc = r.chance(1, 8);
    f.reference_select = r.flip();
    f.cdef_params.cdef_bits = r.below(4) as u8;
    f.delta_q_params.delta_q_present = r.flip();
    f.delta_q_params.delta_q_res = r.below(4) as u8;
    f.delta_lf_params.delta_lf_present = f.delta_q_params.delta_q_present && r.flip();
    f.delta_lf_params.delta_lf_multi = r.flip();
    f.delta_lf_params.delta_lf_res = r.below(4) as u8;
    f.quantization_params.base_q_idx = r.range(1, 255) as u8;
    // segmentation: the features of segment 0 decide what blocks there are
    let segon = r.chance(3, 4);
    f.segmentation_params.segmentation_enabled = segon;
    let (mut pre, mut last) = (false, 0);
    for id in 0..8 { for ft in 0..8 {
        let v = if id == 0 && ft == 5 { r.chance(2, 3) } else if id == 0 { r.chance(1, 8) } else { r.chance(1, 30) };
        f.segmentation_params.feature_value[id][ft] = if v { Some(if ft == 5 { r.range(if id == 0 { 1 } else { 0 }, 7) } else if ft > 5 { 0 } else { r.range(-20, 20) } as isize) } else { None };
        if v && segon { last = id; pre = pre || ft >= 5 }
    } }
    e.seg_id_pre_skip = pre;
    e.last_active_seg_id = last;
    e.frame_is_intra = true;
    e.coded_lossless = r.chance(1, 6);
    e.disable_cdf_update = r.chance(1, 6);
    e.enable_cdef = r.chance(5, 6);
    e.use_128x128_superblock = sb == 128;
    e.num_planes = if r.chance(1, 4) { 1 } else { 3 };
    e.upscaled_width = w;
    // left over from before
    e.current_q_index = r.range(1, 255) as usize;
    for i in 0..4 { e.delta_lf[i] = r.range(-63, 63) as isize }
    e.read_deltas = r.flip();
    let mv = Mvs::new(r, if fint { 8 } else if hp { 1 } else { 2 });
    for k in 1..8 {
        e.gm_type[k] = r.below(4) as usize;
        let small = r.flip();
        for j in 0..6 {
            let d = if small { r.range(-40, 40) } else { r.range(-3000, 3000) };
            e.gm_params[k][j] = (if j < 2 { d * 512 } else if j == 2 || j == 5 { 65536 + d } else { d }) as isize;
        }
    }
    let dens = if f.use_ref_frame_mvs { 1 + r.below(3) } else { r.below(3) };
    e.motion_field_mvs = (0..8).map(|_| (0..(rows / 2 + 1)).map(|_| (0..(cols / 2 + 1)).map(|_| if r.chance(dens, 9) { mv.any(r) } else { MotionVector::new(NO_MV, NO_MV) }).collect()).collect()).collect();
    // the motion field as far as it can matter
    let field: Value = if f.use_ref_frame_mvs && segon {
        let which = f.segmentation_params.feature_value[0][5].map(|v| v as usize);
        (1..8).map(|k| if which == Some(k) || which.is_none() && k == 1 { e.motion_field_mvs[k].iter().map(|row| row.iter().map(|m| if m.x == NO_MV { json!([]) } else { json!([yx(m)]) }).collect::<Vec<_>>()).collect::<Vec<_>>() } else { vec![vec![]] }).map(|v| json!(v)).collect()
    } else { json!([]) };
    let gm: Vec<Value> = (1..8).map(|k| json!({"t": e.gm_type[k], "p": e.gm_params[k]})).collect();
    // restoration units, as the application gives them per superblock
    let types: Vec<usize> = (0..3).map(|_| if big { r.range(1, 3) as usize } else if r.flip() { 0 } else { r.below(4) as usize }).collect();
    let base = if big { 64 } else { *r.pick(&[64usize, 128, 256]) };
    let uv = if r.flip() { (base / 2).max(32) } else { base };
    let sizes = [base, uv, uv];
    for p in 0..3 {
        e.frame_restoration_type[p] = RTYPES[types[p]];
        e.loop_restoration_size[p] = sizes[p];
        for k in 0..2 { e.ref_sgr_xqd[p][k] = within(r, SLO[k], SHI[k]) as isize; for j in 0..3 { e.ref_lr_wiener[p][k][j] = within(r, WLO[j], WHI[j]) as isize } }
    }
    let n = 64;
    f.lr_type = vec![vec![vec![RTYPES[0]; n]; n]; 3];
    f.lr_wiener = vec![vec![vec![vec![vec![99; 3]; 2]; n]; n]; 3];
    f.lr_sgr_set = vec![vec![vec![99; n]; n]; 3];
    f.lr_sgr_xqd = vec![vec![vec![vec![999; 2]; n]; n]; 3];
    let bs = if sb == 128 { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 };
    let m = sb / uv.min(base) * 2 + 2;
    let mut units = vec![];
    if types[..e.num_planes].iter().any(|t| *t > 0) {
        f.superblocks = vec![];
        for y in 0..nr {
            let (mut row, mut given) = (vec![], vec![]);
            for x in 0..nc {
                let mut s = Superblock::new(bs, x * sb, y * sb);
                let us: Vec<Vec<Vec<Unit>>> = (0..3).map(|p| (0..m).map(|_| (0..m).map(|_| rand_unit(r, types[p])).collect()).collect()).collect();
                for p in 0..3 { s.lr_units.push(us[p].iter().map(|v| v.iter().map(|u| u.real(types[p], r)).collect()).collect()) }
                row.push(s);
                given.push(us.iter().map(|p| p.iter().map(|v| v.iter().map(|u| u.json()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
            }
            f.superblocks.push(row);
            units.push(given);
        }
    }
    // cdef and mode info left over from before
    let (uy, ux) = ((rows + 31) / 32 * 2, (cols + 31) / 32 * 2);
    for y in 0..uy { for x in 0..ux { if y * 16 < f.cdef_idx.len() && x * 16 < f.cdef_idx[0].len() { f.cdef_idx[y * 16][x * 16] = r.range(-1, 7) as isize } } }
    if r.flip() { let mut old = blk::mode_info(); old.skip = true; old.is_inter = r.flip(); old.intra = !old.is_inter; old.segment_id = last; for row in f.mis.iter_mut() { for c in row.iter_mut() { if r.flip() { *c = Some(old) } } } }
    Set { f, e, tile, rs, cs, w, h, sb, pre, segon, last, fint, hp, gm, field, types, sizes: [sizes[0], sizes[1], sizes[2]], units, uy, ux }
}

fn one(o: &mut Out, r: &mut Rng, coder: &mut BoolCoder) {
    let mut z = setup(r, Kind::Small);
    let cdef0 = z.cdef();
    let (tile, rows, cols) = (z.tile, z.f.mi_rows(), z.f.mi_cols());
    let e = std::mem::replace(&mut z.e, EncoderContext::new());
    let (planes, lossless, encdef, fixed) = (e.num_planes, e.coded_lossless, e.enable_cdef, e.disable_cdf_update);
    let ectx = Rc::new(RefCell::new(e));
    let mut bits = vec![];
    let mut err = String::new();
    let mut te = TileEncoder::new(&ectx, coder);
    let before = Box::new(te.cdf);
    if let Err(m) = guard(|| te.encode_tile(&mut z.f, tile, &mut bits)) { err = m }
    let after = Box::new(te.cdf);
    let mut tabs = serde_json::Map::new();
    for (a, b) in cdfwalk::tables(&before).into_iter().zip(cdfwalk::tables(&after)) { if a.1 != b.1 { tabs.insert(a.0, json!(b.1)); } }
    drop(te);
    let e = ectx.borrow();
    let cdef1 = z.cdef();
    let Set { f, w, h, sb, pre, segon, last, fint, hp, gm, field, types, sizes, units, rs, cs, .. } = z;
    let (kinds, mis) = blocks_json(&f);
    let feat: Vec<Vec<Vec<isize>>> = f.segmentation_params.feature_value.iter().map(|s| s.iter().map(|v| v.iter().cloned().collect()).collect()).collect();
    o.rec(json!({"f": {"rows": rows, "cols": cols, "sx": f.subsampling_x, "sy": f.subsampling_y, "pre": pre, "segon": segon, "last": last, "feat": feat,
        "lossless": lossless, "encdef": encdef, "ibc": f.allow_intrabc, "bits": f.cdef_params.cdef_bits, "sb": sb, "dq": f.delta_q_params.delta_q_present, "q0": f.quantization_params.base_q_idx,
        "qres": f.delta_q_params.delta_q_res, "lfon": f.delta_lf_params.delta_lf_present, "multi": f.delta_lf_params.delta_lf_multi, "lfres": f.delta_lf_params.delta_lf_res, "planes": planes,
        "refsel": f.reference_select, "fint": fint, "hp": hp, "temporal": f.use_ref_frame_mvs, "gm": gm, "field": field,
        "lr": {"f": {"w": w, "h": h, "sx": f.subsampling_x as u8, "sy": f.subsampling_y as u8, "sup": false, "den": 8}, "types": types, "sizes": sizes}},
        "rows": rs, "cols": cs, "tile": tile, "fixed": fixed, "units": units, "cdef0": cdef0, "cdef1": cdef1, "bits": bits, "tabs": Value::Object(tabs), "mis": mis, "kinds": kinds,
        "q1": e.current_q_index, "lf1": e.delta_lf, "err": err,
        "w1": e.ref_lr_wiener.iter().map(|p| p.iter().map(ints).collect::<Vec<_>>()).collect::<Vec<_>>(), "s1": e.ref_sgr_xqd.iter().map(ints).collect::<Vec<_>>()}));
}

/// A tile group OBU, and its tiles coded one by one, each with nothing before it.
fn group(o: &mut Out, r: &mut Rng, coder: &mut BoolCoder, dir: &str) {
    let seed = r.next();
    let kind = if r.chance(1, 14) { Kind::Long } else if r.chance(1, 6) { Kind::Small } else { Kind::Many };
    let fresh = || { let mut q = Rng::new(seed, 21); let z = setup(&mut q, kind); (z, q) };
    let (mut z, mut q) = fresh();
    let n = z.rs.len() * z.cs.len() - z.rs.len() - z.cs.len() + 1;
    let r = &mut q;
    let start = r.below(n as u64) as usize;
    let end = start + if r.flip() { r.below((n - start).min(4) as u64) as usize } else { r.below((n - start) as u64) as usize };
    let sized = if kind == Kind::Long { 2 + r.below(3) as usize } else { 1 + r.below(4) as usize };
    let said = r.chance(2, 3);
    let seen = r.chance(3, 4);
    let groups: Vec<usize> = if said { (0..r.range(1, 3)).map(|_| r.below(5) as usize).collect() } else { vec![] };
    let left = { let mut v = vec![]; for _ in 0..(if r.flip() { 0 } else { 8 * r.below(4) }) { v.push(r.below(2) as u8) } v };
    let mut bits = left.clone();
    z.e.tile_size_bytes = sized;
    z.e.seen_frame_header = seen;
    z.e.tg_start = start;
    z.e.tg_end = end;
    let (rl, cl) = (z.rs.len() - 1, z.cs.len() - 1);
    let ectx = Rc::new(RefCell::new(z.e));
    let mut frame = z.f;
    frame.tile_groups = groups;
    let mut obu = OBU::OBU_TILE_GROUP(frame);
    let path = format!("{}/sink.bin", dir);
    let mut sink = BinaryWriter::file(&path).unwrap();
    let err = { let mut enc = OBUEncoder::new(&ectx, &mut sink, coder); guard(|| enc.encode_obu_payload(&mut obu, &mut bits)).err().unwrap_or_default() };
    drop(sink);
    let _ = std::fs::remove_file(&path);
    let (first, last) = if said && n > 1 { (start, end) } else { (0, n - 1) };
    let tiles: Vec<Vec<u8>> = (first..=last).map(|k| {
        let (z, _) = fresh();
        let ectx = Rc::new(RefCell::new(z.e));
        let (mut f, mut b, mut c) = (z.f, vec![], BoolCoder::new());
        let mut te = TileEncoder::new(&ectx, &mut c);
        let _ = guard(|| te.encode_tile(&mut f, k, &mut b));
        b
    }).collect();
    let e = ectx.borrow();
    o.rec(json!({"nr": rl, "nc": cl, "said": said, "start": start, "end": end, "sized": sized, "before": left, "bits": bits, "tiles": tiles, "seen": seen, "seen1": e.seen_frame_header, "err": err}));
}

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 20);
    let mut coder = BoolCoder::new();
    if a.extra == "start" {
        // what a tile encoder starts from, and the built-in tables themselves
        let ectx = Rc::new(RefCell::new(EncoderContext::new()));
        let te = TileEncoder::new(&ectx, &mut coder);
        for (at, set) in vec![("built in", Box::new(default_cdf)), ("new tile encoder", Box::new(te.cdf))] {
            let t = cdfwalk::tables(&set);
            o.rec(json!({"k": "names", "at": at, "names": t.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}));
            for (name, tab) in t { o.rec(json!({"k": "table", "at": at, "name": name, "tab": tab})) }
        }
        return
    }
    if a.extra == "groups" {
        for _ in 0..a.n { group(&mut o, &mut r, &mut coder, &a.dir) }
        return
    }
    for _ in 0..a.n { one(&mut o, &mut r, &mut coder) }
}
