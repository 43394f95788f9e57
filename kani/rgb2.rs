//! Child of `las::rgb::v2`: one record from every pair of corresponding states.
use super::*;
use crate::verif_ghost as g;

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct St {
    pub last: [u16; 3],
}
impl St {
    pub fn any() -> St {
        St { last: kani::any() }
    }
    pub fn ok(&self) -> bool {
        true
    }
}
pub fn tag_models(m: &mut RGBModels, base: u32) {
    g::tag(&mut m.byte_used, base);
    g::tag(&mut m.lower_red_byte, base + 1);
    g::tag(&mut m.upper_red_byte, base + 2);
    g::tag(&mut m.lower_green_byte, base + 3);
    g::tag(&mut m.upper_green_byte, base + 4);
    g::tag(&mut m.lower_blue_byte, base + 5);
    g::tag(&mut m.upper_blue_byte, base + 6);
}
fn rgb(s: &St) -> RGB {
    RGB { red: s.last[0], green: s.last[1], blue: s.last[2] }
}
fn st(l: &RGB) -> St {
    St { last: [l.red, l.green, l.blue] }
}
pub fn comp(s: &St) -> LasRGBCompressor {
    let mut c = LasRGBCompressor::default();
    tag_models(&mut c.models, 1);
    c.last = rgb(s);
    c
}
pub fn comp_st(c: &LasRGBCompressor) -> St {
    st(&c.last)
}
pub fn deco(s: &St) -> LasRGBDecompressor {
    let mut c = LasRGBDecompressor::default();
    tag_models(&mut c.models, 1);
    c.last = rgb(s);
    c
}
pub fn deco_st(c: &LasRGBDecompressor) -> St {
    st(&c.last)
}

fn word(c: &RGB) -> u64 {
    (c.red as u64) << 32 | (c.green as u64) << 16 | c.blue as u64
}
/// Contract of `compress_rgb_using` and `decompress_rgb_using`, for `v3_v4` (shown by `step`): with
/// the same models in the same state and the same prediction the colour comes back.
pub fn stub_compress<W: Write>(e: &mut ArithmeticEncoder<W>, m: &mut RGBModels, cur: &RGB, last: &RGB) -> std::io::Result<()> {
    g::put(e.lane(), g::Ev { kind: g::REC, id: m.byte_used.total_count, ctx: 0, a: word(last), b: word(cur) });
    Ok(())
}
pub fn stub_decompress<R: Read>(d: &mut ArithmeticDecoder<R>, m: &mut RGBModels, last: &RGB) -> std::io::Result<RGB> {
    let e = g::get(d.lane(), g::REC, m.byte_used.total_count, 0);
    assert!(e.a == word(last), "both sides predict from the same colour");
    Ok(RGB { red: (e.b >> 32) as u16, green: (e.b >> 16) as u16, blue: e.b as u16 })
}

g::legacy_codec!(LasRGBCompressor, LasRGBDecompressor, 6, 8, 7,);
