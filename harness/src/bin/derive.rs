//! Shared derivations (C16): the real functions evaluated over their domains.
use av1enc::util::{msb16, msb32, msb64};
use av1enc::verif::common::*;
use av1enc::verif::constants::*;
use av1enc::verif::frame::Frame;
use av1enc::verif::math;
use av1enc_verif::*;
use serde_json::{json, Value};
#[path = "../blk.rs"]
mod blk;
use blk::*;

fn main() { suite_main(run) }

/// One record: f's results for the given arguments (a panic ends the list and is reported).
fn rec(o: &mut Out, mut v: Value, n: usize, f: impl Fn(usize) -> i64) {
    let mut r = vec![];
    let mut err = String::new();
    for i in 0..n { match guard(|| f(i)) { Ok(x) => r.push(x), Err(e) => { err = e; break } } }
    v["r"] = json!(r);
    v["err"] = json!(err);
    o.rec(v);
}
fn frame(w: usize, h: usize) -> Frame { Frame::new(FrameType::KEY_FRAME, w, h) }

fn run(a: &Args) {
    let mut r = Rng::new(a.seed, 16);
    let mut o = a.out();
    let o = &mut o;
    // bit lengths
    for lo in (1..65536usize).step_by(1024) {
        let n = 1024.min(65536 - lo);
        rec(o, json!({"k": "msb", "w": 16, "lo": lo}), n, |i| msb16((lo + i) as u16) as i64);
        rec(o, json!({"k": "msb", "w": 32, "lo": lo}), n, |i| msb32((lo + i) as u32) as i64);
        rec(o, json!({"k": "msb", "w": 64, "lo": lo}), n, |i| msb64((lo + i) as u64) as i64);
    }
    let mut bigs = std::collections::BTreeSet::new();
    for b in 1..64u32 { let p = 1u64 << b; for d in [0, 1, 2, 3] { bigs.insert(p + d); bigs.insert(p - 1); bigs.insert(p.wrapping_mul(2).wrapping_sub(1 + d)); bigs.insert(p | (p >> 1)); } }
    bigs.insert(u64::MAX);
    for _ in 0..a.n { let s = r.below(64); bigs.insert(1.max(r.next() >> s)); }
    bigs.remove(&0);
    for v in bigs {
        rec(o, json!({"k": "msbbig", "w": 64, "v": big(v)}), 1, |_| msb64(v) as i64);
        if v < 1 << 32 { rec(o, json!({"k": "msbbig", "w": 32, "v": big(v)}), 1, |_| msb32(v as u32) as i64); }
    }
    // arithmetic
    for n in 0..=16i64 {
        let mut x: Vec<i64> = (-70..70).collect();
        for k in 0..27 { for d in [-1, 0, 1] { x.push((1 << k) + d); x.push(-(1 << k) + d); } }
        for _ in 0..(20 + a.n / 10) { let s = r.below(26); x.push(r.range(-(1 << 26), 1 << 26) >> s); }
        let m = n + r.range(0, 40);
        let at = |i: usize| x[i] as isize;
        let un = n as usize;
        let mut go = |w: &str, f: &dyn Fn(usize) -> isize| rec(o, json!({"k": "arith", "what": w, "x": x, "n": n, "m": m}), x.len(), |i| f(i) as i64);
        go("round2", &|i| math::round2(at(i), un));
        go("round2signed", &|i| math::round2_signed(at(i), un));
        go("abs", &|i| math::abs(at(i)));
        go("min", &|i| math::min(at(i), n as isize));
        go("max", &|i| math::max(at(i), n as isize));
        go("clip3", &|i| math::clip3(n as isize, m as isize, at(i)));
    }
    let x: Vec<i64> = (1..2000).chain((11..30).flat_map(|k| vec![(1 << k) - 1, 1 << k, (1 << k) + 1])).collect();
    rec(o, json!({"k": "arith", "what": "floorlog2", "x": x, "n": 0, "m": 0}), x.len(), |i| math::floor_log2(x[i] as usize) as i64);
    // frame dimensions in 4x4 units
    for lo in (1..8192usize).step_by(512) {
        let n = 512.min(8192 - lo);
        rec(o, json!({"k": "mi", "what": "rows", "lo": lo}), n, |i| { let mut f = frame(8, 8); f.frame_height = lo + i; f.mi_rows() as i64 });
        rec(o, json!({"k": "mi", "what": "cols", "lo": lo}), n, |i| { let mut f = frame(8, 8); f.frame_width = lo + i; f.mi_cols() as i64 });
    }
    for c in 1..=64usize {
        let t = |i: usize| { let mut f = frame(8, 8); f.tile_col_starts = (0..c).collect(); f.tile_row_starts = (0..i + 1).collect(); f };
        rec(o, json!({"k": "tiles", "what": "num", "c": c}), 64, |i| t(i).num_tiles() as i64);
        rec(o, json!({"k": "tiles", "what": "cols", "c": c}), 64, |i| t(i).tile_cols() as i64);
        rec(o, json!({"k": "tiles", "what": "rows", "c": c}), 64, |i| t(i).tile_rows() as i64);
        rec(o, json!({"k": "tiles", "what": "colslog2", "c": c}), 64, |i| t(i).tile_cols_log2() as i64);
        rec(o, json!({"k": "tiles", "what": "rowslog2", "c": c}), 64, |i| t(i).tile_rows_log2() as i64);
    }
    // order hint distance
    for n in 1..=8usize { for on in [true, false] { for x in 0..1usize << n {
        rec(o, json!({"k": "dist", "n": n, "on": on, "a": x}), 1 << n, |y| get_relative_dist(x, y, on, n) as i64);
    } } }
    // references
    rec(o, json!({"k": "backward"}), 9, |i| check_backward(REFS[i]) as i64);
    for x in 0..9 { rec(o, json!({"k": "samedir", "a": x as i64 - 1}), 9, |i| is_samedir_ref_pair(REFS[x], REFS[i]) as i64); }
    for x in 0..9 { rec(o, json!({"k": "countctx", "a": x}), 9, |i| ref_count_ctx(x, i) as i64); }
    for _ in 0..(300 + a.n) {
        let mut nb = |r: &mut Rng| if r.chance(1, 4) { vec![] } else { vec![r.range(-1, 7), r.range(-1, 7)] };
        let (u, l) = (nb(&mut r), nb(&mut r));
        let (row, col) = (r.below(4) as usize, r.below(4) as usize);
        let mk = |v: &Vec<i64>| if v.is_empty() { None } else { let mut m = mode_info(); m.ref_frame = [rf(v[0]), rf(v[1])]; Some(m) };
        let fill = r.range(-1, 7);
        rec(o, json!({"k": "count", "above": if row == 0 { vec![] } else { u.clone() }, "left": if col == 0 { vec![] } else { l.clone() }}), 9, |i| {
            let mut f = frame(16, 16);
            for x in f.mis.iter_mut() { for y in x.iter_mut() { *y = mk(&vec![fill, fill]) } }
            if row > 0 { f.mis[row - 1][col] = mk(&u) }
            if col > 0 { f.mis[row][col - 1] = mk(&l) }
            count_refs(REFS[i], &mut f, row, col) as i64 });
    }
    // sizes
    for plane in 0..3usize { for sx in [false, true] { for sy in [false, true] {
        rec(o, json!({"k": "plane", "plane": plane, "sx": sx as u8, "sy": sy as u8}), 22, |b| get_plane_residual_size(BLOCKS[b], plane, sx, sy) as i64);
    } } }
    for w in [1usize, 2, 3, 4, 5, 8, 12, 16, 24, 32, 48, 64, 128] {
        rec(o, json!({"k": "findtx", "w": w}), 130, |h| find_tx_size(w, h) as i64);
    }
    let n22: [(&str, &[usize; 22]); 7] = [("bw", &block_width), ("bh", &block_height), ("miwlog2", &mi_width_log2), ("mihlog2", &mi_height_log2),
        ("n4w", &num_4x4_blocks_wide), ("n4h", &num_4x4_blocks_high), ("sizegroup", &size_group)];
    for (name, t) in n22.iter() { rec(o, json!({"k": "btable", "what": name}), 22, |i| t[i] as i64); }
    let n19: [(&str, &[usize; 19]); 4] = [("tw", &tx_width), ("th", &tx_height), ("twlog2", &tx_width_log2), ("thlog2", &tx_height_log2)];
    for (name, t) in n19.iter() { rec(o, json!({"k": "ttable", "what": name}), 19, |i| t[i] as i64); }
    rec(o, json!({"k": "ttable", "what": "sqr"}), 20, |i| tx_size_sqr[i] as i64);
    rec(o, json!({"k": "ttable", "what": "sqrup"}), 20, |i| tx_size_sqr_up[i] as i64);
    rec(o, json!({"k": "ttable", "what": "adjusted"}), 19, |i| adjusted_tx_size[i] as i64);
    for p in 0..10usize { rec(o, json!({"k": "subsize", "p": p}), 22, |b| partition_subsize[p][b] as i64); }
    // transform sets, types, classes
    for inter in [false, true] { for reduced in [false, true] {
        rec(o, json!({"k": "txset", "inter": inter, "reduced": reduced}), 19, |t| get_tx_set(TXS[t], inter, reduced) as i64);
    } }
    for inter in [false, true] { for s in 0..(if inter { 4 } else { 3usize }) {
        rec(o, json!({"k": "inset", "inter": inter, "s": s}), 16, |t| is_tx_type_in_set(s, TYPES[t], inter) as i64);
    } }
    rec(o, json!({"k": "class"}), 16, |t| get_tx_class(TYPES[t]) as i64);
    // types actually used: a 4x4 grid holding every type once
    let mut grids = vec![];
    for _ in 0..4 { let mut g: Vec<usize> = (0..16).collect(); for i in (1..16).rev() { let j = r.below(i as u64 + 1) as usize; g.swap(i, j) } grids.push(g) }
    let mkf = |g: &Vec<usize>, sx: bool, sy: bool| {
        let mut f = frame(16, 16);
        f.subsampling_x = sx; f.subsampling_y = sy;
        for y in 0..4 { for x in 0..4 { let mut m = mode_info(); m.tx_type = TYPES[g[y * 4 + x]]; f.mis[y][x] = Some(m); } }
        f };
    for lossless in [false, true] { for inter in [false, true] { for reduced in [false, true] { for t in 0..19usize {
        let g = grids[r.below(4) as usize].clone();
        let base = |what: &str, plane: usize| json!({"k": "txtype", "what": what, "plane": plane, "t": t, "lossless": lossless, "inter": inter, "reduced": reduced, "g": g, "sx": 0, "sy": 0, "uv": 0});
        rec(o, base("luma", 0), 16, |i| compute_tx_type(0, TXS[t], i % 4, i / 4, &mut mkf(&g, false, false), lossless, inter, reduced, MODES[0], i / 4, i % 4) as i64);
        for plane in 1..3 {
            rec(o, base("modes", plane), 14, |i| compute_tx_type(plane, TXS[t], 0, 0, &mut mkf(&g, false, false), lossless, inter, reduced, MODES[i], 0, 0) as i64);
            for sx in [false, true] { for sy in [false, true] {
                let uv = r.below(14) as usize;
                let (mr, mc) = (r.below(4) as usize, r.below(4) as usize);
                let (nx, ny) = (if sx { 2 } else { 4usize }, if sy { 2 } else { 4usize });
                let mut v = base("chroma", plane);
                v["sx"] = json!(sx as u8); v["sy"] = json!(sy as u8); v["uv"] = json!(uv); v["mr"] = json!(mr); v["mc"] = json!(mc); v["nx"] = json!(nx);
                rec(o, v, nx * ny, |i| compute_tx_type(plane, TXS[t], i % nx, i / nx, &mut mkf(&g, sx, sy), lossless, inter, reduced, MODES[uv], mr, mc) as i64);
            } }
        }
    } } } }
    // coefficient contexts
    for round in 0..(1 + a.n / 100) { for t in 0..19usize { for ty in [0usize, 9, 10, 11, 12 + r.below(4) as usize] {
        let adj = adjusted_tx_size[t] as usize;
        let size = tx_width[adj] * tx_height[adj];
        let dense = r.below(4);
        let q: Vec<isize> = (0..size).map(|_| match dense { 0 => r.range(-1, 1), 1 => r.range(-4, 4), 2 => if r.chance(1, 6) { r.range(-40000, 40000) } else { 0 }, _ => r.range(-20, 20) } as isize).collect();
        let w = tx_width[adj];
        let mut pos: Vec<usize> = (0..size.min(16)).collect();
        for _ in 0..40 { pos.push(r.below(size as u64) as usize) }
        for row in 0..tx_height[adj].min(5) { for col in 0..w.min(5) { pos.push(row * w + col) } }
        pos.extend_from_slice(&[size - 1, size - w, w - 1]);
        let inter = r.chance(3, 4);
        let reduced = r.chance(1, 6);
        let lossless = r.chance(1, 8);
        let mkf = || { let mut f = frame(16, 16); let mut m = mode_info(); m.tx_type = TYPES[ty]; f.mis[1][2] = Some(m); f };
        let head = |k: &str| json!({"k": k, "t": t, "here": ty, "inter": inter, "reduced": reduced, "lossless": lossless, "q": q, "pos": pos, "round": round});
        rec(o, head("base"), pos.len(), |i| get_coeff_base_ctx(TXS[t], 0, 2, 1, pos[i], pos[i], false, &mut mkf(), lossless, inter, reduced, MODES[0], 1, 2, &q) as i64);
        let mut cs: Vec<usize> = vec![0, 1, size / 8 - 1, size / 8, size / 8 + 1, size / 4 - 1, size / 4, size / 4 + 1, size - 1];
        for _ in 0..6 { cs.push(r.below(size as u64) as usize) }
        let mut v = head("eob");
        v["pos"] = json!(cs); v["q"] = json!([]);
        rec(o, v, cs.len(), |i| get_coeff_base_ctx(TXS[t], 0, 2, 1, 0, cs[i], true, &mut mkf(), lossless, inter, reduced, MODES[0], 1, 2, &q) as i64);
    } } }
}
