//! Child of `las::wavepacket::v3_v4`.
use super::super::v1::verif_kani as w1;
use super::super::verif_kani::{bits, make, Bits};
use super::*;
use crate::verif_ghost as g;

g::layered_state!(Bits, (0, 0, 0, [0; 4]));
impl St {
    fn record(&self) -> [u8; 29] {
        let mut r = [0u8; 29];
        make(&self.last[self.ctx % 4]).pack_into(&mut r);
        r
    }
}
g::layered_new!(LasWavepacketCompressorImpl, LasWavepacketDecompressorImpl);
fn set_changed<const V: usize>(c: &mut LasWavepacketCompressorImpl<V>, changed: bool) {
    c.has_changed = changed;
}
// how many records the contexts touched have coded: entry, other
static mut N: [u32; 2] = [0; 2];
/// A context's own last record is replaced by the one kept outside whenever it is used.
fn item(id: u32, n: u32) -> w1::Item {
    w1::Item { last_wavepacket: make(&kani::any()), id, n }
}
pub fn comp<const V: usize>(s: &St, ctx: usize) -> LasWavepacketCompressorImpl<V> {
    let mut c = newc::<V>(ctx);
    g::set_used(&s.used);
    c.contexts.only(ctx);
    unsafe { N = kani::any() };
    c.contexts.entry.unused = !s.used[ctx];
    if s.used[ctx] {
        c.contexts.entry.compressor = item(1, unsafe { N[0] });
    }
    let mut i = 0;
    while i < 4 {
        c.last_wavepackets[i] = make(&s.last[i]);
        i += 1;
    }
    c.last_context = s.ctx;
    c.has_changed = s.changed;
    c
}
pub fn comp_st<const V: usize>(c: &LasWavepacketCompressorImpl<V>) -> St {
    let l = &c.last_wavepackets;
    St { ctx: c.last_context, used: g::used_of(&c.contexts, |x| !x.unused), last: [bits(&l[0]), bits(&l[1]), bits(&l[2]), bits(&l[3])], changed: c.has_changed }.clean()
}
pub fn deco<const V: usize>(s: &St, ctx: usize) -> LasWavepacketDecompressorImpl<V> {
    let mut d = newd::<V>(ctx);
    g::set_used(&s.used);
    d.contexts.only(ctx);
    d.contexts.entry.unused = !s.used[ctx];
    if s.used[ctx] {
        d.contexts.entry.decompressor = item(1, unsafe { N[0] });
    }
    let mut i = 0;
    while i < 4 {
        d.last_wavepackets[i] = make(&s.last[i]);
        i += 1;
    }
    d.last_context = s.ctx;
    d.should_decompress = true;
    d
}
pub fn deco_st<const V: usize>(d: &LasWavepacketDecompressorImpl<V>) -> St {
    let l = &d.last_wavepackets;
    St { ctx: d.last_context, used: g::used_of(&d.contexts, |x| !x.unused), last: [bits(&l[0]), bits(&l[1]), bits(&l[2]), bits(&l[3])], changed: false }.clean()
}
g::layered_codec!(LasWavepacketCompressorImpl, LasWavepacketDecompressorImpl, 29, 32, 1, 1 << 10,);
