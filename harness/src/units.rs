//! Restoration units as an application gives them (C20, C21, C23).
use av1enc::verif::constants::*;
use av1enc::verif::block::*;
use av1enc::verif::frame::*;
use av1enc_verif::*;
use serde_json::{json, Value};

pub const RTYPES: [FrameRestorationType; 4] = [FrameRestorationType::RESTORE_NONE, FrameRestorationType::RESTORE_WIENER,
    FrameRestorationType::RESTORE_SGRPROJ, FrameRestorationType::RESTORE_SWITCHABLE];
pub const WLO: [i64; 3] = [-5, -23, -17];
pub const WHI: [i64; 3] = [10, 8, 46];
pub const SLO: [i64; 2] = [-96, -32];
pub const SHI: [i64; 2] = [31, 95];

#[derive(Clone)]
pub struct Unit { ty: usize, w: [[i64; 3]; 2], set: usize, x: [i64; 2] }
impl Unit {
    /// As the application gives it: the fields that do not matter for the type hold anything.
    pub fn real(&self, frame_type: usize, r: &mut Rng) -> LRUnit {
        let mut u = LRUnit { use_wiener: r.flip(), use_sgrproj: r.flip(), restoration_type: RTYPES[r.below(3) as usize], lr_sgr_set: self.set,
            lr_wiener: [[0; 3]; 2], lr_sgr_xqd: [self.x[0] as isize, self.x[1] as isize] };
        for p in 0..2 { for j in 0..3 { u.lr_wiener[p][j] = self.w[p][j] as isize } }
        match frame_type { 1 => u.use_wiener = self.ty == 1, 2 => u.use_sgrproj = self.ty == 2, _ => u.restoration_type = RTYPES[self.ty] }
        u
    }
    pub fn json(&self) -> Value { json!({"type": self.ty, "w": self.w, "set": self.set, "s": self.x}) }
}
/// mostly anywhere, often at or near the ends
pub fn within(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    match r.below(6) { 0 => lo + r.below(3) as i64, 1 => hi - r.below(3) as i64, _ => r.range(lo, hi) }
}
pub fn rand_unit(r: &mut Rng, frame_type: usize) -> Unit {
    let ty = match frame_type { 3 => r.below(3) as usize, t => if r.chance(1, 3) { 0 } else { t } };
    let mut u = Unit { ty, w: [[0; 3]; 2], set: r.below(16) as usize, x: [within(r, SLO[0], SHI[0]), within(r, SLO[1], SHI[1])] };
    for p in 0..2 { for j in 0..3 { u.w[p][j] = within(r, WLO[j], WHI[j]) } }
    u
}

pub fn yx(m: &av1enc::verif::common::MotionVector) -> Value { json!([m.y, m.x]) }
pub fn mi_json(m: &ModeInfo) -> Value {
    json!({"bs": m.mi_size as i64, "inter": m.is_inter, "skip": m.skip, "r0": m.ref_frame[0] as i64, "r1": m.ref_frame[1] as i64, "seg": m.segment_id,
        "mode": m.y_mode as i64, "mv": [yx(&m.mvs[0]), yx(&m.mvs[1])]})
}
/// the frame's record of its blocks: kinds of blocks and, per 4x4 unit, which of them (0: none)
pub fn blocks_json(f: &Frame) -> (Vec<Value>, Vec<Vec<usize>>) {
    let mut kinds: Vec<Value> = vec![];
    let mis = f.mis.iter().map(|row| row.iter().map(|c| match c {
        None => 0,
        Some(m) => { let j = mi_json(m); match kinds.iter().position(|k| *k == j) { Some(p) => p + 1, None => { kinds.push(j); kinds.len() } } }
    }).collect()).collect();
    (kinds, mis)
}
/// cdef indices per 64x64 unit
pub fn cdef_json(f: &Frame, uy: usize, ux: usize) -> Vec<Vec<isize>> {
    (0..uy).map(|y| (0..ux).map(|x| if y * 16 < f.cdef_idx.len() && x * 16 < f.cdef_idx[0].len() { f.cdef_idx[y * 16][x * 16] } else { -99 }).collect()).collect()
}
pub fn ints<const N: usize>(x: &[isize; N]) -> Vec<i64> { x.iter().map(|v| *v as i64).collect() }
