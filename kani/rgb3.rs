//! Child of `las::rgb::v3_v4`.
use super::super::v2::verif_kani::tag_models;
use super::*;
use crate::verif_ghost as g;

g::layered_state!([u16; 3], [0; 3]);
impl St {
    fn record(&self) -> [u8; 6] {
        let l = self.last[self.ctx % 4];
        let mut r = [0u8; 6];
        RGB { red: l[0], green: l[1], blue: l[2] }.pack_into(&mut r);
        r
    }
}
fn rgb(l: &[u16; 3]) -> RGB {
    RGB { red: l[0], green: l[1], blue: l[2] }
}
g::layered_new!(LasRGBCompressorImpl, LasRGBDecompressorImpl);
fn set_changed<const V: usize>(c: &mut LasRGBCompressorImpl<V>, changed: bool) {
    c.rgb_has_changed = changed;
}
fn tagged(base: u32) -> Option<v2::RGBModels> {
    let mut m = v2::RGBModels::default();
    tag_models(&mut m, base);
    Some(m)
}
pub fn comp<const V: usize>(s: &St, ctx: usize) -> LasRGBCompressorImpl<V> {
    let mut c = newc::<V>(ctx);
    g::set_used(&s.used);
    c.contexts.only(ctx);
    if s.used[ctx] {
        std::mem::forget(std::mem::replace(&mut c.contexts.entry, tagged(1)));
    }
    let mut i = 0;
    while i < 4 {
        if s.used[i] {
            c.last_rgbs[i] = Some(rgb(&s.last[i]));
        }
        i += 1;
    }
    c.last_context_used = s.ctx;
    c.rgb_has_changed = s.changed;
    c
}
pub fn comp_st<const V: usize>(c: &LasRGBCompressorImpl<V>) -> St {
    let mut s = St { ctx: c.last_context_used, used: g::used_of(&c.contexts, |m| m.is_some()), last: [[0; 3]; 4], changed: c.rgb_has_changed };
    let mut i = 0;
    while i < 4 {
        assert!(s.used[i] == c.last_rgbs[i].is_some());
        if let Some(r) = &c.last_rgbs[i] {
            s.last[i] = [r.red, r.green, r.blue];
        }
        i += 1;
    }
    s
}
pub fn deco<const V: usize>(s: &St, ctx: usize) -> LasRGBDecompressorImpl<V> {
    let mut d = newd::<V>(ctx);
    g::set_used(&s.used);
    d.contexts.only(ctx);
    d.contexts.entry.unused = !s.used[ctx];
    if s.used[ctx] {
        tag_models(&mut d.contexts.entry.models, 1);
    }
    let mut i = 0;
    while i < 4 {
        d.last_rgbs[i] = rgb(&s.last[i]);
        i += 1;
    }
    d.last_context_used = s.ctx;
    d.should_decompress = true;
    d
}
pub fn deco_st<const V: usize>(d: &LasRGBDecompressorImpl<V>) -> St {
    let mut s = St { ctx: d.last_context_used, used: g::used_of(&d.contexts, |m| !m.unused), last: [[0; 3]; 4], changed: false };
    let mut i = 0;
    while i < 4 {
        let r = &d.last_rgbs[i];
        s.last[i] = [r.red, r.green, r.blue];
        i += 1;
    }
    s.clean()
}
g::layered_codec!(LasRGBCompressorImpl, LasRGBDecompressorImpl, 6, 8, 1, 1 << 8,
    #[kani::stub(crate::las::rgb::v2::compress_rgb_using, crate::las::rgb::v2::verif_kani::stub_compress)]
    #[kani::stub(crate::las::rgb::v2::decompress_rgb_using, crate::las::rgb::v2::verif_kani::stub_decompress)]
);
