//! Child of `las::gps::v1`: one record from every pair of corresponding states.
use super::*;
use crate::compressors::verif_kani as cx;
use crate::decompressors::verif_kani as dx;
use crate::verif_ghost as g;

/// The part of the state that compressor and decompressor share; `ok` is the invariant.
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct St {
    pub gps: i64,
    pub diff: i32,
    pub extreme: i32,
}
impl St {
    pub fn any() -> St {
        St { gps: kani::any(), diff: kani::any(), extreme: kani::any() }
    }
    pub fn ok(&self) -> bool {
        self.extreme >= 0 && self.extreme <= 3
    }
}
pub fn comp(s: &St) -> LasGpsTimeCompressor {
    let mut c = LasGpsTimeCompressor::default();
    g::tag(&mut c.gps_time_multi_model, 1);
    g::tag(&mut c.gps_time_0_diff_model, 2);
    assert!(cx::ready(&c.ic_gps_time));
    cx::tag(&mut c.ic_gps_time, 3);
    c.last_gps = s.gps;
    c.last_gps_time_diff = s.diff;
    c.multi_extreme_counter = s.extreme;
    c
}
pub fn comp_st(c: &LasGpsTimeCompressor) -> St {
    St { gps: c.last_gps, diff: c.last_gps_time_diff, extreme: c.multi_extreme_counter }
}
pub fn deco(s: &St) -> LasGpsTimeDecompressor {
    let mut c = LasGpsTimeDecompressor::default();
    g::tag(&mut c.gps_time_multi_model, 1);
    g::tag(&mut c.gps_time_0_diff_model, 2);
    assert!(dx::ready(&c.ic_gps_time));
    dx::tag(&mut c.ic_gps_time, 3);
    c.last_gps = s.gps;
    c.last_gps_time_diff = s.diff;
    c.multi_extreme_counter = s.extreme;
    c
}
pub fn deco_st(c: &LasGpsTimeDecompressor) -> St {
    St { gps: c.last_gps, diff: c.last_gps_time_diff, extreme: c.multi_extreme_counter }
}

g::legacy_codec!(LasGpsTimeCompressor, LasGpsTimeDecompressor, 8, 10, 2,);
