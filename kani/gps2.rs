//! Child of `las::gps::v2`: one record from every pair of corresponding states.
use super::*;
use crate::compressors::verif_kani as cx;
use crate::decompressors::verif_kani as dx;
use crate::verif_ghost as g;

#[derive(Clone, Copy, PartialEq)]
pub struct St {
    pub last: usize,
    pub next: usize,
    pub times: [i64; 4],
    pub diffs: [i32; 4],
    pub extreme: [i32; 4],
}
impl St {
    pub fn any() -> St {
        St { last: kani::any(), next: kani::any(), times: kani::any(), diffs: kani::any(), extreme: kani::any() }
    }
    pub fn ok(&self) -> bool {
        self.last < 4 && self.next < 4 && self.extreme[0] >= 0 && self.extreme[0] <= 3 && self.extreme[1] >= 0 && self.extreme[1] <= 3
            && self.extreme[2] >= 0 && self.extreme[2] <= 3 && self.extreme[3] >= 0 && self.extreme[3] <= 3
    }
}
fn common(c: &mut Common, s: &St) {
    g::tag(&mut c.gps_time_multi, 1);
    g::tag(&mut c.gps_time_0_diff, 2);
    c.last = s.last;
    c.next = s.next;
    let mut i = 0;
    while i < 4 {
        c.last_gps_times[i].value = s.times[i];
        i += 1;
    }
    c.last_gps_time_diffs = s.diffs;
    c.multi_extreme_counters = s.extreme;
}
fn st(c: &Common) -> St {
    let t = &c.last_gps_times;
    St { last: c.last, next: c.next, times: [t[0].value, t[1].value, t[2].value, t[3].value], diffs: c.last_gps_time_diffs, extreme: c.multi_extreme_counters }
}
pub fn comp(s: &St) -> GpsTimeCompressor {
    let mut c = GpsTimeCompressor::default();
    assert!(cx::ready(&c.ic_gps_time));
    cx::tag(&mut c.ic_gps_time, 3);
    common(&mut c.common, s);
    c
}
pub fn comp_st(c: &GpsTimeCompressor) -> St {
    st(&c.common)
}
pub fn deco(s: &St) -> GpsTimeDecompressor {
    let mut c = GpsTimeDecompressor::default();
    assert!(dx::ready(&c.ic_gps_time));
    dx::tag(&mut c.ic_gps_time, 3);
    common(&mut c.common, s);
    c
}
pub fn deco_st(c: &GpsTimeDecompressor) -> St {
    st(&c.common)
}

// The compressor switches to the sequence the time belongs to and starts over by calling itself; the
// call is replaced by its contract: it is made in a state in which no further switch follows.
static mut AGAIN: u32 = 0;
fn fits(s: &St, rec: i64) -> bool {
    let d = rec.wrapping_sub(s.times[s.last]);
    d == d as i32 as i64
}
pub fn again(c: &mut GpsTimeCompressor, buf: &[u8]) -> std::io::Result<()> {
    let s = st(&c.common);
    assert!(s.ok(), "invariant of the state");
    assert!(fits(&s, GpsTime::unpack_from(buf).value), "the time belongs to the sequence switched to");
    unsafe { AGAIN += 1 };
    Ok(())
}

g::field_harness!(step, 6, #[kani::stub(i32::wrapping_mul, crate::verif_ghost::some_product)] #[kani::stub(crate::las::utils::i32_quantize, crate::verif_ghost::some_quantize)] {
    let s = St::any();
    kani::assume(s.ok());
    let mut c = comp(&s);
    let mut d = deco(&s);
    let mut enc = ArithmeticEncoder::new(Vec::<u8>::new());
    let mut dec = ArithmeticDecoder::new(&[0u8; 4][..]);
    let value: i64 = kani::any();
    let rec: [u8; 8] = value.to_le_bytes();
    assert!(c.compress_with(&mut enc, &rec).is_ok());
    let more = d.decompress_step(&mut dec);
    assert!(more.is_ok());
    let more = more.unwrap();
    unsafe {
        assert!(more == (AGAIN == 1) && AGAIN <= 1, "both sides switch the sequence together");
        assert!(!(fits(&s, value) && more), "no switch without need, so at most one");
    }
    g::all_read();
    let t = comp_st(&c);
    let u = deco_st(&d);
    assert!(t.last == u.last && t.next == u.next && t.ok(), "both sides end in corresponding states");
    let mut i = 0;
    while i < 4 {
        assert!(t.times[i] == u.times[i] && t.diffs[i] == u.diffs[i] && t.extreme[i] == u.extreme[i], "both sides end in corresponding states");
        i += 1;
    }
    if !more {
        assert!(u.times[u.last] == value, "decompressed time is the compressed one");
    }
    kani::cover!(g::written(0) == 3 && !more);
    kani::cover!(more);
    std::mem::forget((c, d, enc, dec));
});

// without a switch to come, what is returned is the last time of the sequence in use
g::field_harness!(finish, 34, {
    let mut s = St::any();
    kani::assume(s.ok());
    let mut d = deco(&s);
    let mut dec = ArithmeticDecoder::new(&[0u8; 4][..]);
    // the encoder's symbol for an unchanged time
    g::put(0, g::Ev { kind: g::SYM, id: if s.diffs[s.last] == 0 { 2 } else { 1 }, ctx: if s.diffs[s.last] == 0 { 6 } else { 516 }, a: if s.diffs[s.last] == 0 { 0 } else { 511 }, b: 0 });
    let mut out: [u8; 8] = kani::any();
    assert!(d.decompress_with(&mut dec, &mut out).is_ok());
    g::all_read();
    assert!(i64::from_le_bytes(out) == s.times[s.last]);
    assert!(deco_st(&d) == s, "nothing else changes");
    kani::cover!(true);
    std::mem::forget((d, dec));
});

g::field_harness!(first, 66, {
    let mut c = GpsTimeCompressor::default();
    let mut d = GpsTimeDecompressor::default();
    let rec: [u8; 8] = kani::any();
    let mut out: [u8; 8] = kani::any();
    let mut sink = g::Bytes::new();
    assert!(c.compress_first(&mut sink, &rec).is_ok());
    assert!(sink.is(&rec), "first record is stored as it is");
    assert!(<GpsTimeDecompressor as FieldDecompressor<g::Bytes>>::decompress_first(&mut d, &mut sink, &mut out).is_ok());
    assert!(out == rec && sink.at == 8);
    assert!(comp_st(&c) == deco_st(&d) && comp_st(&c).ok());
    kani::cover!(true);
    std::mem::forget((c, d));
});
