//! Child of `compressors`: contract of the integer compressor, and C01.
use super::*;
use crate::encoders::ArithmeticEncoder;
use crate::verif_ghost as g;

const READY: u32 = 0x1C00;

/// Identity of an integer compressor in the field harnesses.
pub fn tag(ic: &mut IntegerCompressor, id: u32) {
    ic.corr_range = id;
}
pub fn ready(ic: &IntegerCompressor) -> bool {
    ic.bits_high == READY
}
/// Contract of `init`: the compressor is ready; its width has to be one for which C01 holds.
pub fn stub_init(ic: &mut IntegerCompressor) {
    assert!(ic.corr_bits == 8 || ic.corr_bits == 16 || ic.corr_bits == 32);
    ic.bits_high = READY;
}
/// Values a compressor of that width takes: signed and unsigned numbers of that many bits.
pub fn within(bits: u32, v: i32) -> bool {
    bits >= 32 || (v >= -(1i32 << (bits - 1)) && v < (1i32 << bits))
}
/// What comes back: the value as an unsigned number of that width.
pub fn reduced(bits: u32, v: i32) -> i32 {
    if bits >= 32 { v } else { v & ((1i32 << bits) - 1) }
}
/// Contract of `compress`: needs an initialised compressor, an existing context and values within
/// the width; puts (context, prediction, value) on the tape; leaves some k in 0..=width.
pub fn stub_compress<T: Write>(ic: &mut IntegerCompressor, e: &mut ArithmeticEncoder<T>, pred: i32, real: i32, context: u32) -> std::io::Result<()> {
    assert!(ic.bits_high == READY, "integer compressor is initialised");
    assert!(context < ic.contexts, "context of an integer compressor exists");
    assert!(within(ic.corr_bits, real), "value within the width of its compressor");
    assert!(within(ic.corr_bits, pred), "prediction within the width of its compressor");
    let a = (pred as u32 as u64) << 32 | real as u32 as u64;
    let k = g::some_k(e.lane(), ic.corr_range, context, a, ic.corr_bits);
    ic.k = k;
    g::put(e.lane(), g::Ev { kind: g::IC, id: ic.corr_range, ctx: context, a, b: (ic.corr_bits as u64) << 32 | k as u64 });
    Ok(())
}

// ------------------------------------------------------------------ C01
/// One call, for every context, prediction and value of the width; tape entries must agree, so the
/// decompressor uses the same models and asks for nothing else. Models adapt only inside the coder
/// (C03), the structs carry nothing but k from call to call, so one call is the induction step.
fn round_trip(bits: u32, contexts: u32, format: bool) {
    let mut c = IntegerCompressor::new(bits, contexts, 8, 0);
    c.init();
    let mut d = crate::decompressors::IntegerDecompressor::new(bits, contexts, 8, 0);
    d.init();
    let (nb, nc) = (c.m_bits.len(), c.m_corrector.len());
    let mut i = 0;
    while i < nb {
        g::tag(&mut c.m_bits[i], 100 + i as u32);
        i += 1;
    }
    i = 0;
    while i < nc {
        g::tag(&mut c.m_corrector[i], 200 + i as u32);
        i += 1;
    }
    g::tag_bit(&mut c.m_corrector_0, 300);
    crate::decompressors::verif_kani::tag_models(&mut d);
    // k of an earlier call
    c.k = kani::any();
    crate::decompressors::verif_kani::set_k(&mut d, kani::any());
    let mut enc = ArithmeticEncoder::new(Vec::<u8>::new());
    let mut dec = crate::decoders::ArithmeticDecoder::new(&[0u8; 4][..]);
    let pred: i32 = kani::any();
    let real: i32 = kani::any();
    let ctx: u32 = kani::any();
    kani::assume(ctx < contexts);
    kani::assume(within(bits, pred) && within(bits, real));
    assert!(c.compress(&mut enc, pred, real, ctx).is_ok());
    dec.set_lane(enc.lane());
    let r = d.decompress(&mut dec, pred, ctx);
    assert!(matches!(r, Ok(v) if v == reduced(bits, real)), "decompressed value is the compressed one");
    assert!(c.k() == d.k(), "both sides report the same k");
    assert!(c.k() <= if bits < 32 { bits } else { 32 });
    g::all_read();
    if format {
        check_format(bits, pred, real, ctx);
    }
    kani::cover!(c.k() == 0);
    kani::cover!(c.k() == if bits < 32 { bits } else { 32 } || (bits < 32 && c.k() == bits - 1));
    std::mem::forget((c, d, enc, dec));
}

/// The format (C17): which symbols with which models.
fn check_format(bits: u32, pred: i32, real: i32, ctx: u32) {
    let corr = {
        let w = real.wrapping_sub(pred);
        if bits < 32 {
            let h = 1i32 << (bits - 1);
            if w < -h { w + (1 << bits) } else if w >= h { w - (1 << bits) } else { w }
        } else { w }
    };
    let folded: u32 = if corr <= 0 { corr.unsigned_abs() } else { corr as u32 - 1 };
    let k = 32 - folded.leading_zeros();
    unsafe {
        let t = &g::TAPE[0];
        let n = g::W[0];
        assert!(t[0] == g::Ev { kind: g::SYM, id: 100 + ctx, ctx: if bits < 32 { bits } else { 32 } + 1, a: k as u64, b: 0 });
        if k == 0 {
            assert!(n == 2 && t[1] == g::Ev { kind: g::BIT, id: 300, ctx: 0, a: corr as u64, b: 0 });
        } else if k == 32 {
            assert!(n == 1);
        } else {
            let v: u64 = (if corr >= 0 { corr as i64 - 1 } else { corr as i64 + (1i64 << k) - 1 }) as u64;
            if k <= 8 {
                assert!(n == 2 && t[1] == g::Ev { kind: g::SYM, id: 200 + k - 1, ctx: 1 << k, a: v, b: 0 });
            } else {
                assert!(n == 3 && t[1] == g::Ev { kind: g::SYM, id: 200 + k - 1, ctx: 256, a: v >> (k - 8), b: 0 });
                assert!(t[2] == g::Ev { kind: g::RAW, id: k - 8, ctx: 0, a: v & ((1u64 << (k - 8)) - 1), b: 0 });
            }
        }
    }
}

g::coder_harness!(width8, 34, { round_trip(8, 2, false) });
g::coder_harness!(width16, 34, { round_trip(16, 4, false) });
g::coder_harness!(width32, 34, { round_trip(32, 9, false) });
g::coder_harness!(format8, 34, { round_trip(8, 2, true) });
g::coder_harness!(format16, 34, { round_trip(16, 4, true) });
g::coder_harness!(format32, 34, { round_trip(32, 9, true) });
