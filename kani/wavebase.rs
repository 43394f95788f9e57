//! Child of `las::wavepacket`: the fields of a record, by their bits.
use super::*;

pub type Bits = (u8, u64, u32, [u32; 4]);
pub fn bits(w: &LasWavepacket) -> Bits {
    (w.descriptor_index, w.offset, w.size, [w.return_point.to_bits(), w.dx.to_bits(), w.dy.to_bits(), w.dz.to_bits()])
}
pub fn make(b: &Bits) -> LasWavepacket {
    let f = f32::from_bits;
    LasWavepacket { descriptor_index: b.0, offset: b.1, size: b.2, return_point: f(b.3[0]), dx: f(b.3[1]), dy: f(b.3[2]), dz: f(b.3[3]) }
}
