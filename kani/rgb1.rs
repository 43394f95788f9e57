//! Child of `las::rgb::v1`: one record from every pair of corresponding states.
use super::*;
use crate::compressors::verif_kani as cx;
use crate::decompressors::verif_kani as dx;
use crate::verif_ghost as g;

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct St {
    pub last: [u16; 3],
}
impl St {
    pub fn any() -> St {
        St { last: kani::any() }
    }
    pub fn ok(&self) -> bool {
        true
    }
}
fn rgb(s: &St) -> RGB {
    RGB { red: s.last[0], green: s.last[1], blue: s.last[2] }
}
fn st(l: &RGB) -> St {
    St { last: [l.red, l.green, l.blue] }
}
pub fn comp(s: &St) -> LasRGBCompressor {
    let mut c = LasRGBCompressor::default();
    g::tag(&mut c.byte_used_model, 1);
    assert!(cx::ready(&c.compressor));
    cx::tag(&mut c.compressor, 2);
    c.last = rgb(s);
    c
}
pub fn comp_st(c: &LasRGBCompressor) -> St {
    st(&c.last)
}
pub fn deco(s: &St) -> LasRGBDecompressor {
    let mut c = LasRGBDecompressor::default();
    g::tag(&mut c.byte_used_model, 1);
    assert!(dx::ready(&c.decompressor));
    dx::tag(&mut c.decompressor, 2);
    c.last = rgb(s);
    c
}
pub fn deco_st(c: &LasRGBDecompressor) -> St {
    st(&c.last)
}

g::legacy_codec!(LasRGBCompressor, LasRGBDecompressor, 6, 8, 7,);
