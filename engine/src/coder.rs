//! Entropy coder, models and integer coding against the independent specification in spec.rs.
use crate::gen::Rng;
use crate::spec;
use laz::compressors::IntegerCompressor;
use laz::decoders::ArithmeticDecoder;
use laz::decompressors::IntegerDecompressor;
use laz::encoders::ArithmeticEncoder;
use laz::models::{ArithmeticBitModel, ArithmeticModel};
use std::io::Cursor;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sym(usize, u32),
    Bit(usize, u32),
    WBit(u32),
    WBits(u32, u32),
    WByte(u8),
    WShort(u16),
    WInt(u32),
    WInt64(u64),
}

struct Spec {
    models: Vec<spec::Model>,
    bits: Vec<spec::BitModel>,
    enc: spec::Encoder,
}
impl Spec {
    fn apply(&mut self, op: Op) {
        match op {
            Op::Sym(m, s) => self.enc.symbol(&mut self.models[m], s),
            Op::Bit(m, s) => self.enc.bit(&mut self.bits[m], s),
            Op::WBit(s) => self.enc.raw(1, s),
            Op::WBits(b, s) => self.enc.raw(b, s),
            Op::WByte(s) => self.enc.raw(8, s as u32),
            Op::WShort(s) => self.enc.raw(16, s as u32),
            Op::WInt(s) => self.enc.int(s),
            Op::WInt64(s) => self.enc.int64(s),
        }
    }
}

fn real_apply<T: std::io::Write>(e: &mut ArithmeticEncoder<T>, ms: &mut [ArithmeticModel], bs: &mut [ArithmeticBitModel], op: Op) -> std::io::Result<()> {
    match op {
        Op::Sym(m, s) => e.encode_symbol(&mut ms[m], s),
        Op::Bit(m, s) => e.encode_bit(&mut bs[m], s),
        Op::WBit(s) => e.write_bit(s),
        Op::WBits(b, s) => e.write_bits(b, s),
        Op::WByte(s) => e.write_byte(s),
        Op::WShort(s) => e.write_short(s),
        Op::WInt(s) => e.write_int(s),
        Op::WInt64(s) => e.write_int64(s),
    }
}

fn value(rng: &mut Rng, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    match rng.below(4) {
        0 => 0,
        1 => mask,
        2 => mask >> rng.below(bits as u64),
        _ => rng.next() & mask,
    }
}

/// Any sequence of coder calls: bytes equal the specification's, decoding gives the values back.
pub fn coder(rng: &mut Rng) -> Result<(), String> {
    let nm = 1 + rng.below(4) as usize;
    let sizes: Vec<u32> = (0..nm)
        .map(|_| match rng.below(5) {
            0 => 2 + rng.below(15) as u32,
            1 => 256,
            2 => *rng.pick(&[2u32, 16, 17, 32, 33, 64, 128, 129, 255, 2048]),
            3 => 2 + rng.below(2047) as u32,
            _ => 2 + rng.below(300) as u32,
        })
        .collect();
    let n = match rng.below(10) {
        0 => 0,
        1..=6 => 1 + rng.below(2000) as usize,
        7 | 8 => 2000 + rng.below(8000) as usize,
        _ => 8000 + rng.below(60000) as usize,
    };
    let mut sp = Spec {
        models: sizes.iter().map(|n| spec::Model::new(*n)).collect(),
        bits: vec![spec::BitModel::new(); 3],
        enc: spec::Encoder::new(),
    };
    let mut ms: Vec<ArithmeticModel> = sizes.iter().map(|n| ArithmeticModel::new(*n, rng.chance(1, 2), &[])).collect();
    let mut ds: Vec<ArithmeticModel> = sizes.iter().map(|n| ArithmeticModel::new(*n, false, &[])).collect();
    let mut bs = vec![ArithmeticBitModel::new(); 3];
    let mut dbs = vec![ArithmeticBitModel::new(); 3];
    let mut enc = ArithmeticEncoder::new(Vec::new());
    if rng.chance(1, 3) {
        // a reset encoder behaves like a new one
        for _ in 0..rng.below(3000) {
            let b = rng.next() as u16;
            enc.write_short(b).unwrap();
        }
        enc.reset();
        enc.get_mut().clear();
    }
    let style = rng.below(5);
    let steer = rng.chance(1, 2);
    let mut ops = Vec::with_capacity(n);
    let skew: Vec<u32> = sizes.iter().map(|n| rng.below(*n as u64) as u32).collect();
    for i in 0..n {
        let kind = match style {
            0 => 0,
            1 => 1,
            _ => rng.below(9),
        };
        let op = match kind {
            0 | 8 => {
                let m = rng.below(nm as u64) as usize;
                let s = sizes[m];
                let sym = match rng.below(6) {
                    0 => 0,
                    1 => s - 1,
                    2 | 3 => skew[m],
                    4 => (skew[m] + 1) % s,
                    _ => rng.below(s as u64) as u32,
                };
                let sym = if style == 3 && i % 7 != 0 { skew[m] } else { sym };
                Op::Sym(m, sym)
            }
            1 => {
                let m = rng.below(3) as usize;
                let s = match m {
                    0 => 0,
                    1 => (i % 97 != 0) as u32,
                    _ => rng.below(2) as u32,
                };
                Op::Bit(m, s)
            }
            2 => Op::WBit(rng.below(2) as u32),
            3 => {
                let b = 1 + rng.below(31) as u32;
                Op::WBits(b, value(rng, b) as u32)
            }
            4 => Op::WByte(value(rng, 8) as u8),
            5 => {
                let mut v = value(rng, 16) as u16;
                if steer {
                    v = straddle(&sp.enc, 16).unwrap_or(v as u32) as u16;
                }
                Op::WShort(v)
            }
            6 => Op::WInt(value(rng, 32) as u32),
            _ => Op::WInt64(value(rng, 64)),
        };
        sp.apply(op);
        real_apply(&mut enc, &mut ms, &mut bs, op).map_err(|e| e.to_string())?;
        ops.push(op);
    }
    enc.done().map_err(|e| e.to_string())?;
    let want = sp.enc.done();
    let got = enc.into_inner();
    if want != got {
        let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return Err(format!("alphabets {sizes:?}, {n} operations: output differs from the specification at byte {i} (lengths {} / {})", want.len(), got.len()));
    }
    let mut dec = ArithmeticDecoder::new(Cursor::new(&got[..]));
    dec.read_init_bytes().map_err(|e| e.to_string())?;
    for (i, op) in ops.iter().enumerate() {
        let r = match *op {
            Op::Sym(m, _) => dec.decode_symbol(&mut ds[m]).map(|s| Op::Sym(m, s)),
            Op::Bit(m, _) => dec.decode_bit(&mut dbs[m]).map(|s| Op::Bit(m, s)),
            Op::WBit(_) => dec.read_bit().map(Op::WBit),
            Op::WBits(b, _) => dec.read_bits(b).map(|v| Op::WBits(b, v)),
            Op::WByte(_) => dec.read_bits(8).map(|v| Op::WByte(v as u8)),
            Op::WShort(_) => dec.read_bits(16).map(|v| Op::WShort(v as u16)),
            Op::WInt(_) => dec.read_int().map(Op::WInt),
            Op::WInt64(_) => dec.read_int_64().map(Op::WInt64),
        }
        .map_err(|e| format!("operation {i} of {n} {op:?}: {e}"))?;
        if r != *op {
            return Err(format!("alphabets {sizes:?}: operation {i} of {n}: encoded {op:?}, decoded {r:?}"));
        }
    }
    Ok(())
}

/// A `bits`-bit raw value after which the interval contains a multiple of 2^32 in its interior
/// (so a carry is still possible), if there is one.
fn straddle(e: &spec::Encoder, bits: u32) -> Option<u32> {
    let l = (e.length >> bits) as u64;
    let top = 1u64 << 32;
    let b = e.base as u64;
    if b + e.length as u64 <= top || l == 0 {
        return None;
    }
    let s = (top - b) / l;
    if s < (1 << bits) {
        Some(s as u32)
    } else {
        None
    }
}

/// A run of 0xFF digits of chosen length ended by a carry (or by none).
/// Runs up to 4096 digits always fit the ring buffer.
pub fn carry_run(rng: &mut Rng, run: usize, upper: bool) -> Result<(), String> {
    let mut sp = spec::Encoder::new();
    let mut enc = ArithmeticEncoder::new(Vec::new());
    let mut vals: Vec<(u32, u32)> = vec![];
    let put = |sp: &mut spec::Encoder, enc: &mut ArithmeticEncoder<Vec<u8>>, vals: &mut Vec<(u32, u32)>, b: u32, v: u32| {
        sp.raw(b, v);
        if b == 16 {
            enc.write_short(v as u16).unwrap()
        } else {
            enc.write_bits(b, v).unwrap()
        }
        vals.push((b, v));
    };
    // arbitrary phase within the ring buffer
    for _ in 0..rng.below(9000) {
        let v = rng.below(65536) as u32;
        put(&mut sp, &mut enc, &mut vals, 16, v);
    }
    // find a straddling interval
    let mut guard = 0;
    while straddle(&sp, 8).is_none() {
        put(&mut sp, &mut enc, &mut vals, 8, 255);
        guard += 1;
        if guard > 100_000 {
            return Ok(());
        }
    }
    let start = sp.out.len();
    while sp.out.len() - start < run {
        match straddle(&sp, 8) {
            Some(v) => put(&mut sp, &mut enc, &mut vals, 8, v),
            None => break,
        }
    }
    // resolve: the upper part carries, the lower does not
    let mut i = 0;
    while i < 6 {
        let (b, v) = if upper { (16, 65535) } else { (16, 0) };
        put(&mut sp, &mut enc, &mut vals, b, v);
        i += 1;
    }
    for _ in 0..rng.below(9000) {
        let v = rng.below(65536) as u32;
        put(&mut sp, &mut enc, &mut vals, 16, v);
    }
    enc.done().unwrap();
    let got = enc.into_inner();
    let want = sp.done();
    if got != want {
        let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return Err(format!("run of {run} pending digits from byte {start}, carry {upper}: byte {i} of {} differs", want.len()));
    }
    let mut dec = ArithmeticDecoder::new(Cursor::new(&got[..]));
    dec.read_init_bytes().unwrap();
    for (i, (b, v)) in vals.iter().enumerate() {
        let r = dec.read_bits(*b).map_err(|e| e.to_string())?;
        if r != *v {
            return Err(format!("run of {run}: value {i}: {v} decoded as {r}"));
        }
    }
    Ok(())
}

pub fn carry(rng: &mut Rng) -> Result<(), String> {
    let run = match rng.below(3) {
        0 => rng.below(20) as usize,
        1 => rng.below(600) as usize,
        _ => 3500 + rng.below(590) as usize,
    };
    let upper = rng.chance(3, 4);
    carry_run(rng, run, upper)
}

/// Integer coding: any width, context interleaving, call history.
pub fn ic(rng: &mut Rng) -> Result<(), String> {
    let bits = *rng.pick(&[8u32, 16, 32, 32, 16, 8, 2, 7, 9, 12, 19, 20, 24, 30]);
    let contexts = 1 + rng.below(8) as u32;
    let high = *rng.pick(&[8u32, 8, 8, 4, 10]);
    let range = if rng.chance(1, 6) && bits < 31 && bits > 2 { (1u32 << (bits - 1)) + rng.below(1 << (bits - 1)) as u32 } else { 0 };
    let mut c = IntegerCompressor::new(bits, contexts, high, range);
    let mut d = IntegerDecompressor::new(bits, contexts, high, range);
    c.init();
    d.init();
    let n = 1 + rng.below(3000) as usize;
    let mut enc = ArithmeticEncoder::new(Vec::new());
    let lim: u64 = if range != 0 { range as u64 } else { 1u64 << bits };
    let one = |rng: &mut Rng, near: i32| -> i32 {
        let v = match rng.below(8) {
            0 => 0,
            1 => lim - 1,
            2 => lim / 2,
            3 => lim / 2 - 1,
            4 => (near as u32 as u64).wrapping_add(1u64 << rng.below(bits as u64)),
            5 => (near as u32 as u64).wrapping_sub(1u64 << rng.below(bits as u64)),
            6 => (near as u32 as u64).wrapping_add(rng.below(300)).wrapping_sub(150),
            _ => rng.next(),
        };
        ((v & u32::MAX as u64) % lim) as u32 as i32
    };
    let mut calls = vec![];
    let mut prev = 0i32;
    for i in 0..n {
        let pred = one(rng, prev);
        let real = one(rng, pred);
        prev = real;
        let ctx = rng.below(contexts as u64) as u32;
        c.compress(&mut enc, pred, real, ctx).map_err(|e| e.to_string())?;
        calls.push((pred, real, ctx, c.k()));
        let _ = i;
    }
    enc.done().unwrap();
    let data = enc.into_inner();
    let mut dec = ArithmeticDecoder::new(Cursor::new(&data[..]));
    dec.read_init_bytes().map_err(|e| e.to_string())?;
    for (i, (pred, real, ctx, k)) in calls.iter().enumerate() {
        let r = d.decompress(&mut dec, *pred, *ctx).map_err(|e| format!("call {i}: {e}"))?;
        if r != *real || d.k() != *k {
            return Err(format!(
                "bits {bits} high {high} range {range} call {i} of {n}: pred {pred} real {real} context {ctx}: decompressed {r}, k {} / {}",
                k,
                d.k()
            ));
        }
    }
    Ok(())
}

/// A writer that fails now and then.
struct Flaky {
    n: u64,
    every: u64,
}
impl std::io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        assert!(self.n < 2000, "writer called without end");
        if self.n % self.every == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Encoding on after failed writes stays inside the output buffer (sanitizer, debug assertions).
pub fn werr(rng: &mut Rng) -> Result<(), String> {
    let mut e = ArithmeticEncoder::new(Flaky { n: 0, every: 1 + rng.below(4) });
    let mut bs = vec![ArithmeticBitModel::new()];
    let mut ms = vec![ArithmeticModel::new(256, true, &[])];
    for _ in 0..3 {
        for _ in 0..rng.below(16000) {
            let op = match rng.below(4) {
                0 => Op::Sym(0, rng.below(256) as u32),
                1 => Op::Bit(0, rng.below(2) as u32),
                2 => Op::WShort(rng.next() as u16),
                _ => Op::WInt(rng.next() as u32),
            };
            // after an error the outcome may be a panic, but never an access outside the buffer
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real_apply(&mut e, &mut ms, &mut bs, op).is_err())) {
                Ok(_) => (),
                Err(m) => {
                    let m = m.downcast_ref::<&str>().map(|s| s.to_string()).or(m.downcast_ref::<String>().cloned()).unwrap_or_default();
                    return if m.contains("out_byte") || m.contains("out_buffer") { Err(m) } else { Ok(()) };
                }
            }
        }
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.done().is_err()));
        if rng.below(2) == 0 {
            e.reset();
        }
    }
    Ok(())
}
