//! Child of `las::nir::v3_v4`.
use super::*;
use crate::verif_ghost as g;

g::layered_state!(u16, 0);
impl St {
    fn record(&self) -> [u8; 2] {
        self.last[self.ctx % 4].to_le_bytes()
    }
}
fn tag(c: &mut NirContext, b: u32) {
    g::tag(&mut c.bytes_used_model, b + 1);
    g::tag(&mut c.lower_byte_diff_model, b + 2);
    g::tag(&mut c.upper_byte_diff_model, b + 3);
}
fn contexts(t: &mut g::Table<NirContext>, s: &St, ctx: usize) {
    g::set_used(&s.used);
    t.only(ctx);
    t.entry.unused = !s.used[ctx];
    if s.used[ctx] {
        tag(&mut t.entry, 0);
    }
}
g::layered_new!(LasNIRCompressorImpl, LasNIRDecompressorImpl);
fn set_changed<const V: usize>(c: &mut LasNIRCompressorImpl<V>, changed: bool) {
    c.has_nir_changed = changed;
}
pub fn comp<const V: usize>(s: &St, ctx: usize) -> LasNIRCompressorImpl<V> {
    let mut c = newc::<V>(ctx);
    contexts(&mut c.contexts, s, ctx);
    c.last_nirs = s.last;
    c.last_context_used = s.ctx;
    c.has_nir_changed = s.changed;
    c
}
pub fn comp_st<const V: usize>(c: &LasNIRCompressorImpl<V>) -> St {
    St { ctx: c.last_context_used, used: g::used_of(&c.contexts, |x| !x.unused), last: c.last_nirs, changed: c.has_nir_changed }.clean()
}
pub fn deco<const V: usize>(s: &St, ctx: usize) -> LasNIRDecompressorImpl<V> {
    let mut d = newd::<V>(ctx);
    contexts(&mut d.contexts, s, ctx);
    d.last_nirs = s.last;
    d.last_context_used = s.ctx;
    d.should_decompress = true;
    d
}
pub fn deco_st<const V: usize>(d: &LasNIRDecompressorImpl<V>) -> St {
    St { ctx: d.last_context_used, used: g::used_of(&d.contexts, |x| !x.unused), last: d.last_nirs, changed: false }.clean()
}
g::layered_codec!(LasNIRCompressorImpl, LasNIRDecompressorImpl, 2, 6, 3, 1 << 9,);
