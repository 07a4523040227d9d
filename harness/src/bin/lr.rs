//! Loop restoration units (C17): the real writer over whole frames of superblocks, and over single units.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::block::*;
use av1enc::verif::cdf::*;
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::*;
use av1enc::verif::tile_encoder::TileEncoder;
use av1enc_verif::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
#[path = "../cdfwalk.rs"]
mod cdfwalk;

fn main() { suite_main(run) }

const TYPES: [FrameRestorationType; 4] = [FrameRestorationType::RESTORE_NONE, FrameRestorationType::RESTORE_WIENER,
    FrameRestorationType::RESTORE_SGRPROJ, FrameRestorationType::RESTORE_SWITCHABLE];
const NAMES: [&str; 3] = ["use_wiener", "use_sgrproj", "restoration_type"];
const WLO: [i64; 3] = [-5, -23, -17];
const WHI: [i64; 3] = [10, 8, 46];
const SLO: [i64; 2] = [-96, -32];
const SHI: [i64; 2] = [31, 95];

#[derive(Clone)]
struct Unit { ty: usize, w: [[i64; 3]; 2], set: usize, x: [i64; 2] }
impl Unit {
    /// As the application gives it: the fields that do not matter for the type hold anything.
    fn real(&self, frame_type: usize, r: &mut Rng) -> LRUnit {
        let mut u = LRUnit { use_wiener: r.flip(), use_sgrproj: r.flip(), restoration_type: TYPES[r.below(3) as usize], lr_sgr_set: self.set,
            lr_wiener: [[0; 3]; 2], lr_sgr_xqd: [self.x[0] as isize, self.x[1] as isize] };
        for p in 0..2 { for j in 0..3 { u.lr_wiener[p][j] = self.w[p][j] as isize } }
        match frame_type { 1 => u.use_wiener = self.ty == 1, 2 => u.use_sgrproj = self.ty == 2, _ => u.restoration_type = TYPES[self.ty] }
        u
    }
    fn json(&self) -> Value { json!({"type": self.ty, "w": self.w, "set": self.set, "s": self.x}) }
}
/// mostly anywhere, often at or near the ends
fn within(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    match r.below(6) { 0 => lo + r.below(3) as i64, 1 => hi - r.below(3) as i64, _ => r.range(lo, hi) }
}
fn rand_unit(r: &mut Rng, frame_type: usize) -> Unit {
    let ty = match frame_type { 3 => r.below(3) as usize, t => if r.chance(1, 3) { 0 } else { t } };
    let mut u = Unit { ty, w: [[0; 3]; 2], set: r.below(16) as usize, x: [within(r, SLO[0], SHI[0]), within(r, SLO[1], SHI[1])] };
    for p in 0..2 { for j in 0..3 { u.w[p][j] = within(r, WLO[j], WHI[j]) } }
    u
}

struct Conf { w: usize, h: usize, sx: usize, sy: usize, sup: bool, den: usize, sb: usize, planes: usize, ibc: bool, types: [usize; 3], sizes: [usize; 3],
    w0: [[[i64; 3]; 2]; 3], s0: [[i64; 2]; 3] }

fn ints<const N: usize>(x: &[isize; N]) -> Vec<i64> { x.iter().map(|v| *v as i64).collect() }

/// units(plane): what each superblock is given, as a grid large enough for any of them
fn go(o: &mut Out, r: &mut Rng, c: &Conf, coder: &mut BoolCoder, sbs: Vec<(usize, usize, Vec<Vec<Vec<Unit>>>)>) {
    let coded_w = if c.sup { (c.w * 8 + c.den / 2) / c.den } else { c.w };
    let mut ecx = EncoderContext::new();
    ecx.num_planes = c.planes;
    ecx.use_128x128_superblock = c.sb == 128;
    ecx.upscaled_width = c.w;
    ecx.superres_denom = c.den;
    for p in 0..3 {
        ecx.frame_restoration_type[p] = TYPES[c.types[p]];
        ecx.loop_restoration_size[p] = c.sizes[p];
        for k in 0..2 { ecx.ref_sgr_xqd[p][k] = c.s0[p][k] as isize; for j in 0..3 { ecx.ref_lr_wiener[p][k][j] = c.w0[p][k][j] as isize } }
    }
    let ectx = Rc::new(RefCell::new(ecx));
    let mut f = Frame::new(FrameType::KEY_FRAME, coded_w, c.h);
    f.allow_intrabc = c.ibc;
    f.use_superres = c.sup;
    f.subsampling_x = c.sx == 1;
    f.subsampling_y = c.sy == 1;
    let n = 64;
    f.lr_type = vec![vec![vec![TYPES[0]; n]; n]; 3];
    f.lr_wiener = vec![vec![vec![vec![vec![99; 3]; 2]; n]; n]; 3];
    f.lr_sgr_set = vec![vec![vec![99; n]; n]; 3];
    f.lr_sgr_xqd = vec![vec![vec![vec![999; 2]; n]; n]; 3];
    let s4 = c.sb / 4;
    let bs = if c.sb == 128 { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 };
    let (rows, cols) = (f.mi_rows() / s4 + 1, f.mi_cols() / s4 + 1);
    f.superblocks = (0..rows).map(|y| (0..cols).map(|x| Superblock::new(bs, x * c.sb, y * c.sb)).collect()).collect();
    let mut bits = vec![];
    let mut err = String::new();
    let mut list = vec![];
    coder.init_encoder();
    let mut te = TileEncoder::new(&ectx, coder);
    // tables not at their defaults
    for t in [&mut te.cdf.use_wiener, &mut te.cdf.use_sgrproj] { t[0] = r.range(2000, 30000) as i32; t[2] = r.below(33) as i32 }
    let before = Box::new(te.cdf);
    let tabs = json!({"use_wiener": before.use_wiener, "use_sgrproj": before.use_sgrproj, "restoration_type": before.restoration_type});
    for (y, x, units) in sbs.iter() {
        for p in 0..c.planes {
            f.superblocks[y / s4][x / s4].lr_units.push(units[p].iter().map(|row| row.iter().map(|u| u.real(c.types[p], r)).collect()).collect());
        }
        let (mut seen, e) = (vec![], guard(|| te.encode_lr(&mut bits, &mut f, *y, *x, bs)));
        for p in 0..c.planes { seen.push(units[p].iter().map(|row| row.iter().map(|u| u.json()).collect::<Vec<_>>()).collect::<Vec<_>>()) }
        list.push(json!({"r": y, "c": x, "u": seen}));
        if let Err(m) = e { err = m; break }
    }
    let after = Box::new(te.cdf);
    let mut other = vec![];
    for (a, b) in cdfwalk::tables(&before).into_iter().zip(cdfwalk::tables(&after)) { if a.1 != b.1 && !NAMES.contains(&a.0.as_str()) { other.push(a.0) } }
    drop(te);
    if err.is_empty() { if let Err(m) = guard(|| coder.exit_encoder(&mut bits)) { err = m } } else { *coder = BoolCoder::new() }
    let e = ectx.borrow();
    // what the frame holds afterwards, where it was written
    let mut held = vec![];
    for p in 0..3 { for y in 0..n { for x in 0..n {
        if f.lr_sgr_set[p][y][x] != 99 || f.lr_wiener[p][y][x][0][1] != 99 || f.lr_type[p][y][x] as usize != 0 {
            held.push(json!({"p": p, "y": y, "x": x, "type": f.lr_type[p][y][x] as usize, "w": f.lr_wiener[p][y][x], "set": f.lr_sgr_set[p][y][x], "s": f.lr_sgr_xqd[p][y][x]}));
        }
    } } }
    o.rec(json!({"f": {"w": c.w, "h": c.h, "sx": c.sx, "sy": c.sy, "sup": c.sup, "den": c.den}, "sb": c.sb, "planes": c.planes, "ibc": c.ibc, "types": c.types, "sizes": c.sizes,
        "w0": c.w0, "s0": c.s0, "sbs": list, "bits": bits, "tabs": tabs, "err": err, "other": other, "held": held,
        "after": {"use_wiener": after.use_wiener, "use_sgrproj": after.use_sgrproj, "restoration_type": after.restoration_type},
        "w1": e.ref_lr_wiener.iter().map(|p| p.iter().map(ints).collect::<Vec<_>>()).collect::<Vec<_>>(), "s1": e.ref_sgr_xqd.iter().map(ints).collect::<Vec<_>>()}));
}

const MID: ([i64; 3], [i64; 2]) = ([3, -7, 15], [-32, 31]);

fn run(a: &Args) {
    let mut o = a.out();
    let mut r = Rng::new(a.seed, 17);
    let mut coder = BoolCoder::new();
    let one = |t: usize, w0: [[i64; 3]; 2], s0: [i64; 2]| Conf { w: 64, h: 64, sx: 1, sy: 1, sup: false, den: 8, sb: 64, planes: 1, ibc: false, types: [t, 0, 0], sizes: [64; 3],
        w0: [w0; 3], s0: [s0; 3] };
    // one unit with every value and prediction (a.n of a thousand of them)
    let keep = a.n as u64;
    for q in 0..64 { for v in 0..64 {
        if q >= 16 && q <= 48 && q != 31 && q != 32 && q != 33 && !r.chance(keep, 1000) { continue }
        let at = |j: usize, k: i64| WLO[j] + k % (WHI[j] - WLO[j] + 1);
        let (p0, p1) = ([at(0, q), at(1, q), at(2, q)], [at(0, q + v / 16), at(1, q + v / 32), at(2, v)]);
        let u = Unit { ty: 1, w: [[at(0, v), at(1, v), at(2, v)], [at(0, q + v), at(1, v + 1), at(2, q)]], set: 0, x: [0, 0] };
        go(&mut o, &mut r, &one(if v % 2 == 0 { 1 } else { 3 }, [p0, p1], MID.1), &mut coder, vec![(0, 0, vec![vec![vec![u]]])]);
    } }
    for q in 0..128 { for v in 0..128 {
        if !(r.chance(1, 12) || [0, 1, 62, 63, 64, 65, 126, 127].contains(&q) && r.chance(1, 3)) && !r.chance(keep, 1000) { continue }
        let u = Unit { ty: 2, w: [[0; 3]; 2], set: (q + v) as usize % 16, x: [SLO[0] + v, SLO[1] + (v * 5 + q) % 128] };
        go(&mut o, &mut r, &one(if v % 2 == 0 { 2 } else { 3 }, [MID.0; 2], [SLO[0] + q, SLO[1] + q]), &mut coder, vec![(0, 0, vec![vec![vec![u]]])]);
    } }
    // whole frames
    for k in 0..(150 + a.n) {
        let sb = if r.flip() { 64 } else { 128 };
        let dim = |r: &mut Rng| match r.below(4) { 0 => r.range(1, 40), 1 => 64 * r.range(1, 6) + r.range(-3, 3), 2 => 32 * r.range(1, 12) + r.range(-1, 1), _ => r.range(16, 420) } as usize;
        let sup = r.chance(1, 3);
        let (mut w, h) = (dim(&mut r), dim(&mut r));
        if sup { w = w.max(16) }
        let base = *r.pick(&[64, 128, 256]);
        let (sx, sy) = *r.pick(&[(1, 1), (1, 0), (0, 0), (1, 1)]);
        let uv = if r.flip() { (base / 2).max(32) } else { base };
        let mut c = Conf { w, h, sx, sy, sup, den: if sup { r.range(9, 16) as usize } else { 8 }, sb, planes: if r.chance(1, 4) { 1 } else { 3 }, ibc: k % 40 == 39,
            types: [r.below(4) as usize, r.below(4) as usize, r.below(4) as usize], sizes: [base, uv, uv], w0: [[MID.0; 2]; 3], s0: [MID.1; 3] };
        if r.flip() { for p in 0..3 { for k in 0..2 { c.s0[p][k] = within(&mut r, SLO[k], SHI[k]); for j in 0..3 { c.w0[p][k][j] = within(&mut r, WLO[j], WHI[j]) } } } }
        let coded_w = if sup { (w * 8 + c.den / 2) / c.den } else { w };
        let s4 = sb / 4;
        let (mir, mic) = (2 * ((h + 7) / 8), 2 * ((coded_w + 7) / 8));
        let mut sbs = vec![];
        let m = sb / c.sizes[1].min(c.sizes[0]) * 2 + 2;
        for y in (0..mir).step_by(s4) { for x in (0..mic).step_by(s4) {
            let units: Vec<Vec<Vec<Unit>>> = (0..3).map(|p| (0..m).map(|_| (0..m).map(|_| rand_unit(&mut r, c.types[p])).collect()).collect()).collect();
            sbs.push((y, x, units));
        } }
        // a run of at most a few superblocks of it
        let start = if r.flip() { 0 } else { r.below(sbs.len() as u64) as usize };
        let sbs: Vec<_> = sbs.into_iter().skip(start).take(5).collect();
        go(&mut o, &mut r, &c, &mut coder, sbs);
    }
    // where units lie: few of them filtered, so that many geometries can be looked at
    for k in 0..(240 + 2 * a.n) {
        let (sx, sy) = [(1, 1), (1, 0), (0, 0)][k as usize % 3];
        let sup = (k / 3) % 3 != 0;
        let sb = if (k / 9) % 2 == 0 { 64 } else { 128 };
        let base = *r.pick(&[64, 64, 128, 256]);
        let uv = if sx + sy > 0 && base > 32 && r.flip() { base / 2 } else { base };
        let tall = r.chance(1, 3);
        let long = (32 * r.range(4, 24) + r.range(-2, 2)) as usize;
        let short = r.range(8, 140) as usize;
        let (w, h) = if tall { (short.max(16), long) } else { (long, short) };
        let c = Conf { w, h, sx, sy, sup, den: if sup { r.range(9, 16) as usize } else { 8 }, sb, planes: 3, ibc: false,
            types: [r.range(0, 2) as usize, r.range(1, 2) as usize, r.range(1, 3) as usize], sizes: [base, uv, uv], w0: [[MID.0; 2]; 3], s0: [MID.1; 3] };
        let coded_w = if sup { (w * 8 + c.den / 2) / c.den } else { w };
        let s4 = sb / 4;
        let (mir, mic) = (2 * ((h + 7) / 8), 2 * ((coded_w + 7) / 8));
        let m = sb / uv.min(base) * 2 + 2;
        let mut sbs = vec![];
        for y in (0..mir).step_by(s4) { for x in (0..mic).step_by(s4) {
            let units: Vec<Vec<Vec<Unit>>> = (0..3).map(|p| (0..m).map(|_| (0..m).map(|_| {
                let mut u = rand_unit(&mut r, c.types[p]);
                if !r.chance(1, 12) { u.ty = 0 }
                u
            }).collect()).collect()).collect();
            sbs.push((y, x, units));
        } }
        let sbs: Vec<_> = sbs.into_iter().take(10).collect();
        go(&mut o, &mut r, &c, &mut coder, sbs);
    }
}
