//! Child of `las::extra_bytes::v1`: one record from every pair of corresponding states, with 1 and 3 bytes.
use super::*;
use crate::verif_ghost as g;

fn one(n: usize) {
    let mut c = LasExtraByteCompressor::new(n);
    let mut d = LasExtraByteDecompressor::new(n);
    assert!(c.count == n && d.count == n && c.models.len() == n && d.models.len() == n && c.diffs.len() == n && d.diffs.len() == n);
    let last: [u8; 4] = kani::any();
    let mut i = 0;
    while i < n {
        g::tag(&mut c.models[i], 1 + i as u32);
        g::tag(&mut d.models[i], 1 + i as u32);
        c.last_bytes[i] = last[i];
        d.last_bytes[i] = last[i];
        // left over from the record before
        c.diffs[i] = kani::any();
        d.diffs[i] = kani::any();
        i += 1;
    }
    let mut enc = ArithmeticEncoder::new(Vec::<u8>::new());
    let mut dec = ArithmeticDecoder::new(&[0u8; 4][..]);
    let rec: [u8; 4] = kani::any();
    let mut out: [u8; 4] = kani::any();
    assert!(c.compress_with(&mut enc, &rec[..n]).is_ok());
    assert!(d.decompress_with(&mut dec, &mut out[..n]).is_ok());
    assert!(g::same(&out[..n], &rec[..n]), "decompressed record is the compressed one");
    g::all_read();
    assert!(g::same(&c.last_bytes, &rec[..n]) && g::same(&d.last_bytes, &rec[..n]), "both sides end in corresponding states");
    kani::cover!(g::written(0) == n);
    std::mem::forget((c, d, enc, dec));
}
g::field_harness!(step1, 6, { one(1) });
g::field_harness!(step3, 6, { one(3) });

g::field_harness!(first, 6, {
    let mut c = LasExtraByteCompressor::new(3);
    let mut d = LasExtraByteDecompressor::new(3);
    let rec: [u8; 3] = kani::any();
    let mut out: [u8; 3] = kani::any();
    let mut sink = g::Bytes::new();
    assert!(c.compress_first(&mut sink, &rec).is_ok());
    assert!(sink.is(&rec), "first record is stored as it is");
    assert!(<LasExtraByteDecompressor as FieldDecompressor<g::Bytes>>::decompress_first(&mut d, &mut sink, &mut out).is_ok());
    assert!(g::same(&out, &rec) && sink.at == 3);
    assert!(g::same(&c.last_bytes, &rec) && g::same(&d.last_bytes, &rec));
    kani::cover!(true);
    std::mem::forget((c, d));
});
