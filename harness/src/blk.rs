//! Blocks and neighbours: enumerations by number, mode info with plain defaults.
#![allow(dead_code)]
use av1enc::verif::common::MotionVector;
use av1enc::verif::constants::*;
use BlockSize::*;
use RefFrame::*;
use TxSize::*;
use TxType::*;
use YMode::*;

pub const BLOCKS: [BlockSize; 23] = [BLOCK_4X4, BLOCK_4X8, BLOCK_8X4, BLOCK_8X8, BLOCK_8X16, BLOCK_16X8, BLOCK_16X16, BLOCK_16X32,
    BLOCK_32X16, BLOCK_32X32, BLOCK_32X64, BLOCK_64X32, BLOCK_64X64, BLOCK_64X128, BLOCK_128X64, BLOCK_128X128,
    BLOCK_4X16, BLOCK_16X4, BLOCK_8X32, BLOCK_32X8, BLOCK_16X64, BLOCK_64X16, BLOCK_INVALID];
pub const TXS: [TxSize; 20] = [TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16,
    TX_32X64, TX_64X32, TX_4X16, TX_16X4, TX_8X32, TX_32X8, TX_16X64, TX_64X16, TX_INVALID];
pub const TYPES: [TxType; 16] = [DCT_DCT, ADST_DCT, DCT_ADST, ADST_ADST, FLIPADST_DCT, DCT_FLIPADST, FLIPADST_FLIPADST, ADST_FLIPADST,
    FLIPADST_ADST, IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST];
pub const MODES: [YMode; 26] = [DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED,
    SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED, UV_CFL_PRED, NEARESTMV, NEARMV, GLOBALMV, NEWMV, NEAREST_NEARESTMV, NEAR_NEARMV,
    NEAREST_NEWMV, NEW_NEARESTMV, NEAR_NEWMV, NEW_NEARMV, GLOBAL_GLOBALMV, NEW_NEWMV];
/// by number + 1 (NONE is -1)
pub const REFS: [RefFrame; 9] = [NONE, INTRA_FRAME, LAST_FRAME, LAST2_FRAME, LAST3_FRAME, GOLDEN_FRAME, BWDREF_FRAME, ALTREF2_FRAME, ALTREF_FRAME];
pub const FILTERS: [InterpFilter; 5] = [InterpFilter::EIGHTTAP, InterpFilter::EIGHTTAP_SMOOTH, InterpFilter::EIGHTTAP_SHARP,
    InterpFilter::BILINEAR, InterpFilter::SWITCHABLE];
pub fn rf(i: i64) -> RefFrame { REFS[(i + 1) as usize] }

pub fn mode_info() -> ModeInfo {
    ModeInfo {
        mi_size: BLOCK_4X4, tx_size: TX_4X4, tx_type: DCT_DCT, is_inter: false, skip: false, intra: true, single: true,
        seg_id_predicted: 0, skip_mode: 0, ref_frame: [INTRA_FRAME, NONE], interp_filter: [InterpFilter::EIGHTTAP; 2],
        level_context: [0; 3], dc_context: [0; 3], palette_size: [0; 3], comp_group_idx: 0, compound_idx: 0, segment_id: 0,
        y_mode: DC_PRED, mvs: [MotionVector::new(0, 0); 2],
    }
}
