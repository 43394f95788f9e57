//! Child of `decompressors`: contract of the integer decompressor.
use super::*;
use crate::decoders::ArithmeticDecoder;
use crate::verif_ghost as g;

const READY: u32 = 0x1C00;

pub fn tag(ic: &mut IntegerDecompressor, id: u32) {
    ic.corr_range = id;
}
pub fn ready(ic: &IntegerDecompressor) -> bool {
    ic.bits_high == READY
}
pub fn set_k(ic: &mut IntegerDecompressor, k: u32) {
    ic.k = k;
}
pub fn tag_models(d: &mut IntegerDecompressor) {
    let (nb, nc) = (d.m_bits.len(), d.m_corrector.len());
    let mut i = 0;
    while i < nb {
        g::tag(&mut d.m_bits[i], 100 + i as u32);
        i += 1;
    }
    i = 0;
    while i < nc {
        g::tag(&mut d.m_corrector[i], 200 + i as u32);
        i += 1;
    }
    g::tag_bit(&mut d.m_corrector0, 300);
}
pub fn stub_init(ic: &mut IntegerDecompressor) {
    assert!(ic.corr_bits == 8 || ic.corr_bits == 16 || ic.corr_bits == 32);
    ic.bits_high = READY;
}
/// Contract of `decompress`: with the context and prediction the compressor had, the value (as an unsigned
/// number of the width) and the k it had.
pub fn stub_decompress<T: Read>(ic: &mut IntegerDecompressor, dec: &mut ArithmeticDecoder<T>, pred: i32, context: u32) -> std::io::Result<i32> {
    assert!(ic.bits_high == READY, "integer decompressor is initialised");
    assert!(context < ic.contexts, "context of an integer decompressor exists");
    let e = g::get(dec.lane(), g::IC, ic.corr_range, context);
    assert!((e.a >> 32) as u32 as i32 == pred, "decompressor has the prediction the compressor had");
    assert!(crate::compressors::verif_kani::within(ic.corr_bits, pred), "prediction within the width");
    assert!((e.b >> 32) as u32 == ic.corr_bits, "decompressor has the width the compressor had");
    ic.k = e.b as u32;
    Ok(crate::compressors::verif_kani::reduced(ic.corr_bits, e.a as u32 as i32))
}
