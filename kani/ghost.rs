//! Ghost state and the contracts of the entropy coder (encoder and decoder side) that the field
//! level harnesses use in place of its bodies. The contracts are discharged by the coder and model
//! harnesses (C02, C03); here the coder is a tape: what one side puts on it, with which model, is
//! what the other side gets when it asks for the same kind with the same model.
//!
//! Preconditions of the real functions are asserted by the stubs, so a caller that violates one
//! fails an obligation.
use crate::decoders::ArithmeticDecoder;
use crate::encoders::ArithmeticEncoder;
use crate::models::{ArithmeticBitModel, ArithmeticModel};
use std::io::{Cursor, Read, Result, Seek, Write};

#[path = "light.rs"]
pub mod light;

pub const SYM: u8 = 1;
pub const BIT: u8 = 2;
pub const RAW: u8 = 3;
pub const INT: u8 = 4;
pub const INT64: u8 = 5;
pub const IC: u8 = 6;
pub const REC: u8 = 7;

#[derive(Clone, Copy, PartialEq)]
pub struct Ev {
    pub kind: u8,
    pub id: u32,
    pub ctx: u32,
    pub a: u64,
    pub b: u64,
}
const NOEV: Ev = Ev { kind: 0, id: 0, ctx: 0, a: 0, b: 0 };
const LANES: usize = 24;
/// Lanes from here on are those of the reference copy of a codec, run after the codec itself (C17).
pub const REF: u32 = 12;
const LEN: usize = 12;
pub static mut TAPE: [[Ev; LEN]; LANES] = [[NOEV; LEN]; LANES];
pub static mut W: [usize; LANES] = [0; LANES];
pub static mut R: [usize; LANES] = [0; LANES];
pub static mut PUTS: usize = 0;
pub static mut GETS: usize = 0;

pub fn put(lane: u32, e: Ev) {
    unsafe {
        let l = lane as usize;
        TAPE[l][W[l]] = e;
        W[l] += 1;
        PUTS += 1;
    }
}

/// The next entry, which has to be of that kind, for that model and context.
pub fn get(lane: u32, kind: u8, id: u32, ctx: u32) -> Ev {
    unsafe {
        let l = lane as usize;
        assert!(R[l] < W[l], "decoder reads a value the encoder did not write");
        let e = TAPE[l][R[l]];
        R[l] += 1;
        GETS += 1;
        assert!(e.kind == kind, "decoder asks for another kind of value than was written");
        assert!(e.id == id && e.ctx == ctx, "decoder uses another model or context than the encoder");
        e
    }
}

/// The symbol first coded with model `NOTED` of lane 0: what is first decoded with it, kept where
/// the verifier sees that it is a constant.
pub static mut NOTED: u32 = u32::MAX;
static mut NOTE: (u32, bool, bool) = (0, false, false);
pub fn note_encoded(id: u32, v: u32) {
    unsafe {
        if NOTED != u32::MAX && !NOTE.1 && id == NOTED {
            NOTE = (v, true, false);
        }
    }
}
pub fn note_decoded(id: u32, v: u32) -> u32 {
    unsafe {
        if NOTED != u32::MAX && NOTE.1 && !NOTE.2 && id == NOTED {
            assert!(v == NOTE.0, "the symbol decoded is the one encoded");
            NOTE.2 = true;
            return NOTE.0;
        }
    }
    v
}

/// Never more is read than written in a lane (see `get`), so equal totals mean equal lanes.
pub fn all_read() {
    unsafe {
        assert!(GETS == PUTS, "decoder leaves values unread");
    }
}

/// What the reference codec wrote is what the codec wrote.
pub fn same_lanes(lane: u32) {
    unsafe {
        let (l, r) = (lane as usize, (lane + REF) as usize);
        assert!(W[l] == W[r], "as many coded values as the format has");
        let mut i = 0;
        while i < LEN {
            if i < W[l] {
                assert!(TAPE[l][i] == TAPE[r][i], "coded values, models and contexts are those of the format");
            }
            i += 1;
        }
    }
}
/// The k an integer coder leaves: any within its width, the same in the reference for the same call.
pub fn some_k(lane: u32, id: u32, ctx: u32, a: u64, bits: u32) -> u32 {
    if lane >= REF {
        unsafe {
            let e = TAPE[(lane - REF) as usize][W[lane as usize]];
            if e.kind == IC && e.id == id && e.ctx == ctx && e.a == a {
                return e.b as u32;
            }
        }
    }
    let k: u32 = kani::any();
    kani::assume(k <= bits);
    k
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut r = true;
    while i < a.len() {
        r = r & (a[i] == b[i]);
        i += 1;
    }
    r
}

/// How many values of a lane are not read yet.
pub fn unread(lane: usize) -> usize {
    unsafe { W[lane] - R[lane] }
}
pub fn written(lane: usize) -> usize {
    unsafe { W[lane] }
}

// the finished bytes of a lane (`done`), and how often a decoder started on its layer
pub static mut CONTENT: [[u8; 2]; LANES] = [[0; 2]; LANES];
pub const CONTENT_LEN: usize = 2;
/// What the contexts were that a record cannot touch (see Table).
pub static mut USED: [bool; 4] = [false; 4];
pub static mut UNIFORM: bool = false;
pub static mut DONE: [u8; LANES] = [0; LANES];
pub static mut INIT: [u8; LANES] = [0; LANES];
pub static mut GOT: [[u8; 2]; LANES] = [[0; 2]; LANES];
/// The decoder of the lane was started on the bytes of its layer, if wanted.
pub fn layer_loaded(lane: usize, wanted: bool) {
    unsafe {
        assert!(INIT[lane] == wanted as u8, "a layer is loaded once, if it is wanted");
        assert!(!wanted || (GOT[lane][0] == CONTENT[lane][0] && GOT[lane][1] == CONTENT[lane][1]), "the bytes of the layer are loaded");
    }
}
/// Any bytes in that lane; their number does not matter to code that only passes them on.
pub fn any_content(lane: u32) {
    unsafe {
        CONTENT[lane as usize] = kani::any();
    }
}
pub fn restart() {
    unsafe {
        DONE = [0; LANES];
        INIT = [0; LANES];
    }
}

/// A small byte sink and source.
pub struct Bytes {
    pub b: [u8; 64],
    pub n: usize,
    pub at: usize,
    /// whether it can seek
    pub seeks: bool,
}
impl Bytes {
    pub fn new() -> Bytes {
        Bytes { b: [0; 64], n: 0, at: 0, seeks: true }
    }
    pub fn is(&self, x: &[u8]) -> bool {
        self.n == x.len() && same(&self.b[..self.n], x)
    }
}
impl Write for Bytes {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut i = 0;
        while i < buf.len() {
            self.b[self.n + i] = buf[i];
            i += 1;
        }
        self.n += buf.len();
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Read for Bytes {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut i = 0;
        while i < buf.len() {
            buf[i] = self.b[self.at + i];
            i += 1;
        }
        self.at += buf.len();
        Ok(buf.len())
    }
}
impl std::io::Seek for Bytes {
    fn seek(&mut self, to: std::io::SeekFrom) -> Result<u64> {
        if !self.seeks {
            return Err(std::io::ErrorKind::Unsupported.into());
        }
        match to {
            std::io::SeekFrom::Current(d) => self.at = (self.at as i64 + d) as usize,
            std::io::SeekFrom::Start(d) => self.at = d as usize,
            std::io::SeekFrom::End(d) => self.at = (self.n as i64 + d) as usize,
        }
        Ok(self.at as u64)
    }
}

pub fn clear() {
    unsafe {
        W = [0; LANES];
        R = [0; LANES];
        PUTS = 0;
        GETS = 0;
        MUL.1 = 0;
        QUANT.2 = false;
    }
}

// ---- models: identified by a tag the harness puts in total_count / bit_count
pub fn tag(m: &mut ArithmeticModel, id: u32) {
    m.total_count = id;
}
pub fn tag_bit(m: &mut ArithmeticBitModel, id: u32) {
    m.bit_count = id;
}
pub fn model_new(symbols: u32, compress: bool, _init: &[u32]) -> ArithmeticModel {
    assert!(symbols >= 2 && symbols <= 2048, "number of symbols of a model");
    ArithmeticModel {
        symbols,
        compress,
        distribution: Vec::new(),
        symbol_count: Vec::new(),
        decoder_table: Vec::new(),
        total_count: 0,
        update_cycle: 0,
        symbols_until_update: 0,
        last_symbol: symbols - 1,
        table_size: 0,
        table_shift: 0,
    }
}

// ---- arithmetic both sides do alike: any function of the arguments will do, so it is left open
static mut MUL: ([(i32, i32, i32); 2], usize) = ([(0, 0, 0); 2], 0);
pub fn some_product(a: i32, b: i32) -> i32 {
    unsafe {
        let mut i = 0;
        while i < 2 {
            let (x, y, r) = MUL.0[i];
            if i < MUL.1 && x == a && y == b {
                return r;
            }
            i += 1;
        }
        let r: i32 = kani::any();
        if MUL.1 < 2 {
            MUL.0[MUL.1] = (a, b, r);
            MUL.1 += 1;
        }
        r
    }
}
static mut QUANT: (f32, i32, bool) = (0.0, 0, false);
pub fn some_quantize(x: f32) -> i32 {
    unsafe {
        if QUANT.2 && QUANT.0.to_bits() == x.to_bits() {
            return QUANT.1;
        }
        let r = kani::any();
        if !QUANT.2 {
            QUANT = (x, r, true);
        }
        r
    }
}

// ---- the coder
pub fn enc_sym<T: Write>(e: &mut ArithmeticEncoder<T>, m: &mut ArithmeticModel, sym: u32) -> Result<()> {
    assert!(sym < m.symbols, "symbol within the alphabet of its model");
    put(e.lane(), Ev { kind: SYM, id: m.total_count, ctx: m.symbols, a: sym as u64, b: 0 });
    Ok(())
}
pub fn dec_sym<T: Read>(e: &mut ArithmeticDecoder<T>, m: &mut ArithmeticModel) -> Result<u32> {
    Ok(get(e.lane(), SYM, m.total_count, m.symbols).a as u32)
}
pub fn enc_bit<T: Write>(e: &mut ArithmeticEncoder<T>, m: &mut ArithmeticBitModel, sym: u32) -> Result<()> {
    assert!(sym <= 1, "bit is 0 or 1");
    put(e.lane(), Ev { kind: BIT, id: m.bit_count, ctx: 0, a: sym as u64, b: 0 });
    Ok(())
}
pub fn dec_bit<T: Read>(e: &mut ArithmeticDecoder<T>, m: &mut ArithmeticBitModel) -> Result<u32> {
    Ok(get(e.lane(), BIT, m.bit_count, 0).a as u32)
}
pub fn write_bits<T: Write>(e: &mut ArithmeticEncoder<T>, bits: u32, sym: u32) -> Result<()> {
    assert!(bits > 0 && bits < 32 && sym < (1u32 << bits), "raw value fits its number of bits");
    put(e.lane(), Ev { kind: RAW, id: bits, ctx: 0, a: sym as u64, b: 0 });
    Ok(())
}
pub fn read_bits<T: Read>(e: &mut ArithmeticDecoder<T>, bits: u32) -> Result<u32> {
    Ok(get(e.lane(), RAW, bits, 0).a as u32)
}
pub fn write_int<T: Write>(e: &mut ArithmeticEncoder<T>, v: u32) -> Result<()> {
    put(e.lane(), Ev { kind: INT, id: 0, ctx: 0, a: v as u64, b: 0 });
    Ok(())
}
pub fn read_int<T: Read>(e: &mut ArithmeticDecoder<T>) -> Result<u32> {
    Ok(get(e.lane(), INT, 0, 0).a as u32)
}
pub fn write_int64<T: Write>(e: &mut ArithmeticEncoder<T>, v: u64) -> Result<()> {
    put(e.lane(), Ev { kind: INT64, id: 0, ctx: 0, a: v, b: 0 });
    Ok(())
}
pub fn read_int64<T: Read>(e: &mut ArithmeticDecoder<T>) -> Result<u64> {
    Ok(get(e.lane(), INT64, 0, 0).a)
}

/// A harness in which the entropy coder is replaced by its contract.
macro_rules! coder_harness {
    ($name:ident, $unwind:expr, $body:block) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(crate::models::ArithmeticModel::new, crate::verif_ghost::model_new)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::new, crate::encoders::verif_kani::stub_new)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::encode_symbol, crate::verif_ghost::enc_sym)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::encode_bit, crate::verif_ghost::enc_bit)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::write_bits, crate::verif_ghost::write_bits)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::write_int, crate::verif_ghost::write_int)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::write_int64, crate::verif_ghost::write_int64)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::decode_symbol, crate::verif_ghost::dec_sym)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::decode_bit, crate::verif_ghost::dec_bit)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_bits, crate::verif_ghost::read_bits)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_int, crate::verif_ghost::read_int)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_int_64, crate::verif_ghost::read_int64)]
        pub fn $name() $body
    };
}
pub(crate) use coder_harness;

/// As above, with the integer coders replaced by their contract too.
macro_rules! field_harness {
    ($name:ident, $unwind:expr, $(#[$extra:meta])* $body:block) => {
        $(#[$extra])*
        #[kani::proof]
        #[kani::solver(kissat)]
        #[kani::unwind($unwind)]
        #[kani::stub(crate::models::ArithmeticModel::new, crate::verif_ghost::model_new)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::new, crate::encoders::verif_kani::stub_new)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::encode_symbol, crate::verif_ghost::enc_sym)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::encode_bit, crate::verif_ghost::enc_bit)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::write_bits, crate::verif_ghost::write_bits)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::write_int, crate::verif_ghost::write_int)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::write_int64, crate::verif_ghost::write_int64)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::decode_symbol, crate::verif_ghost::dec_sym)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::decode_bit, crate::verif_ghost::dec_bit)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_bits, crate::verif_ghost::read_bits)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_int, crate::verif_ghost::read_int)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_int_64, crate::verif_ghost::read_int64)]
        #[kani::stub(crate::encoders::ArithmeticEncoder::done, crate::encoders::verif_kani::stub_done)]
        #[kani::stub(crate::decoders::ArithmeticDecoder::read_init_bytes, crate::decoders::verif_kani::stub_init)]
        #[kani::stub(crate::compressors::IntegerCompressor::init, crate::compressors::verif_kani::stub_init)]
        #[kani::stub(crate::compressors::IntegerCompressor::compress, crate::compressors::verif_kani::stub_compress)]
        #[kani::stub(crate::decompressors::IntegerDecompressor::init, crate::decompressors::verif_kani::stub_init)]
        #[kani::stub(crate::decompressors::IntegerDecompressor::decompress, crate::decompressors::verif_kani::stub_decompress)]
        pub fn $name() $body
    };
}
pub(crate) use field_harness;

/// A field harness in which layers are copied by contract (`stub_copy_in`, `stub_copy_out`; shown by `las::utils` `layer*`).
macro_rules! layer_harness {
    ($name:ident, $unwind:expr, $body:block) => {
        g::field_harness!($name, $unwind,
            #[kani::stub(crate::las::utils::copy_bytes_into_decoder, crate::verif_ghost::stub_copy_in)]
            #[kani::stub(crate::las::utils::copy_encoder_content_to, crate::verif_ghost::stub_copy_out)]
            $body);
    };
}
pub(crate) use layer_harness;

/// A harness of a codec that is compiled against `light`.
macro_rules! light_harness {
    ($name:ident, $unwind:expr, $(#[$extra:meta])* $body:block) => {
        $(#[$extra])*
        #[kani::proof]
        #[kani::solver(cadical)]
        #[kani::unwind($unwind)]
        pub fn $name() $body
    };
}
pub(crate) use light_harness;

/// The harnesses of a legacy item: St, comp, deco, comp_st, deco_st come from the file.
macro_rules! legacy_codec {
    ($comp:ident, $deco:ident, $size:expr, $unwind:expr, $events:expr, $(#[$extra:meta])*) => {
        g::field_harness!(step, $unwind, $(#[$extra])* {
            let s = St::any();
            kani::assume(s.ok());
            let mut c = comp(&s);
            let mut d = deco(&s);
            let mut enc = ArithmeticEncoder::new(Vec::<u8>::new());
            let mut dec = ArithmeticDecoder::new(&[0u8; 4][..]);
            let rec: [u8; $size] = kani::any();
            let mut out: [u8; $size] = kani::any();
            assert!(c.compress_with(&mut enc, &rec).is_ok());
            assert!(d.decompress_with(&mut dec, &mut out).is_ok());
            assert!(g::same(&out, &rec), "decompressed record is the compressed one");
            g::all_read();
            let t = comp_st(&c);
            assert!(t == deco_st(&d), "both sides end in corresponding states");
            assert!(t.ok(), "invariant of the state");
            kani::cover!(g::written(0) == $events);
            std::mem::forget((c, d, enc, dec));
        });

        g::field_harness!(first, 66, {
            let mut c = $comp::default();
            let mut d = $deco::default();
            let rec: [u8; $size] = kani::any();
            let mut out: [u8; $size] = kani::any();
            let mut sink = g::Bytes::new();
            assert!(c.compress_first(&mut sink, &rec).is_ok());
            assert!(sink.is(&rec), "first record is stored as it is");
            assert!(<$deco as FieldDecompressor<g::Bytes>>::decompress_first(&mut d, &mut sink, &mut out).is_ok());
            assert!(g::same(&out, &rec) && sink.at == $size);
            assert!(comp_st(&c) == deco_st(&d) && comp_st(&c).ok());
            kani::cover!(true);
            std::mem::forget((c, d));
        });
    };
}
pub(crate) use legacy_codec;

/// C17: the compressor puts on the tape what the reference compressor does, from the same state.
macro_rules! legacy_format {
    ($comp:ident, $refmod:path, $size:expr, $unwind:expr, $events:expr, $(#[$extra:meta])*) => {
        #[cfg(feature = "reference")]
        mod format {
            use super::*;
            use $refmod as r;
            g::field_harness!(format, $unwind, $(#[$extra])* {
                let s = St::any();
                kani::assume(s.ok());
                let mut c = comp(&s);
                let s2: r::St = unsafe { std::mem::transmute_copy(&s) };
                let mut d = r::comp(&s2);
                let mut enc = ArithmeticEncoder::new(Vec::<u8>::new());
                let mut enc2 = ArithmeticEncoder::new(Vec::<u8>::new());
                enc2.set_lane(g::REF);
                let rec: [u8; $size] = kani::any();
                assert!(c.compress_with(&mut enc, &rec).is_ok());
                assert!(d.compress_with(&mut enc2, &rec).is_ok());
                g::same_lanes(0);
                let t = comp_st(&c);
                let t2 = r::comp_st(&d);
                let t2: St = unsafe { std::mem::transmute_copy(&t2) };
                assert!(t == t2, "state after the record is that of the format");
                kani::cover!(g::written(0) == $events);
                std::mem::forget((c, d, enc, enc2));
            });
            g::field_harness!(begin, 66, {
                let mut c = $comp::default();
                let mut d = r::$comp::default();
                let rec: [u8; $size] = kani::any();
                let mut sink = g::Bytes::new();
                assert!(c.compress_first(&mut sink, &rec).is_ok());
                assert!(d.compress_first(&mut sink, &rec).is_ok());
                let t = comp_st(&c);
                let t2 = r::comp_st(&d);
                let t2: St = unsafe { std::mem::transmute_copy(&t2) };
                assert!(t == t2, "state after the first record is that of the format");
                kani::cover!(true);
                std::mem::forget((c, d));
            });
        }
    };
}
pub(crate) use legacy_format;

/// Extra bytes of a record, of a fixed number.
pub const FEW: usize = 2;
pub struct Few([u8; FEW]);
impl std::ops::Deref for Few {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::DerefMut for Few {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
pub struct ExtraBytes {
    pub bytes: Few,
}
impl ExtraBytes {
    pub fn new(count: usize) -> Self {
        assert!(count == FEW);
        Self { bytes: Few([0; FEW]) }
    }
}

/// Contract of `done`: the sink holds the bytes of the lane; nothing is encoded after it.
pub fn layer_done<W: Write>(l: usize, out: &mut W) -> Result<()> {
    unsafe {
        assert!(DONE[l] == 0, "a layer is finished once");
        DONE[l] = 1;
        out.write_all(&CONTENT[l])
    }
}
/// Contract of `copy_encoder_content_to`: the finished bytes of the lane go to the sink.
pub fn layer_out<W: Write>(l: usize, dst: &mut W) -> Result<()> {
    unsafe {
        assert!(DONE[l] == 1, "the layer is finished before it is written");
        dst.write_all(&CONTENT[l])
    }
}
pub fn stub_copy_out<W: Write>(e: &mut ArithmeticEncoder<Cursor<Vec<u8>>>, dst: &mut W) -> std::io::Result<()> {
    layer_out(e.lane() as usize, dst)
}
/// Contract of `copy_bytes_into_decoder`: the layer is passed; if wanted and not empty, the decoder
/// starts on it. Layers of the harnesses are empty or CONTENT_LEN bytes.
pub fn layer_in<R: Read + Seek>(is_requested: bool, num_bytes: usize, lane: usize, src: &mut R) -> Result<bool> {
    assert!(num_bytes == 0 || num_bytes == CONTENT_LEN, "size of the layer");
    if num_bytes == 0 {
        return Ok(false);
    }
    let mut b = [0u8; CONTENT_LEN];
    src.read_exact(&mut b)?;
    if is_requested {
        unsafe {
            INIT[lane] += 1;
            GOT[lane] = b;
        }
    }
    Ok(is_requested)
}
pub fn stub_copy_in<R: Read + Seek>(is_requested: bool, num_bytes: usize, d: &mut ArithmeticDecoder<Cursor<Vec<u8>>>, src: &mut R) -> std::io::Result<bool> {
    layer_in(is_requested, num_bytes, d.lane() as usize, src)
}

/// A table of entries, of which two are represented: it stands in for the `Vec`s and arrays in which
/// a codec keeps its models, medians and contexts. Either `at` is arbitrary (symbolic) and `other` is
/// whatever other entry is used, of which a record may use one (asserted); or (`strict`) the record
/// may touch entry `at` only (asserted), so all the others stay as they are.
unsafe impl<T> Send for Table<T> {}
unsafe impl<T> Sync for Table<T> {}
pub struct Table<T> {
    pub len: usize,
    pub at: usize,
    pub strict: bool,
    /// with `strict`: `other` is entry `with`, and may be touched too
    pub with: usize,
    /// `at` is a guess at the one index the record uses: all indices are covered, as it is arbitrary
    pub guess: bool,
    pub used: std::cell::Cell<usize>,
    pub entry: T,
    pub other: T,
}
impl<T> Table<T> {
    fn use_index(&self, i: usize) -> bool {
        assert!(i < self.len, "entry of the table exists");
        if self.guess {
            assert!(self.used.get() == 0 || i == self.at, "one index per record");
            kani::assume(i == self.at);
            self.used.set(1);
            return true;
        }
        if self.strict {
            if self.with < self.len {
                assert!(i == self.at || i == self.with, "of the contexts only those of the record are touched");
                return i == self.at;
            }
            assert!(i == self.at, "of the contexts only that of the record is touched");
            return true;
        } else {
            assert!(self.used.get() == 0 || self.used.get() == i + 1, "one index per record");
            self.used.set(i + 1);
        }
        i == self.at
    }
    /// Entry `a` is the one represented; no others are touched.
    pub fn only(&mut self, a: usize) {
        self.at = a;
        self.strict = true;
        self.guess = false;
    }
    /// The record uses one entry, guessed to be `a`.
    pub fn guessed(&mut self, a: usize) {
        self.at = a;
        self.strict = false;
        self.guess = true;
    }
    /// Entries `a` and `b` are represented; no others are touched.
    pub fn both(&mut self, a: usize, b: usize) {
        self.only(a);
        self.with = b;
    }
    pub unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        &mut self[i]
    }
    pub unsafe fn get_unchecked(&self, i: usize) -> &T {
        &self[i]
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        if i < self.len { Some(&mut self[i]) } else { None }
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        if i < self.len { Some(&self[i]) } else { None }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn iter_mut(&mut self) -> std::array::IntoIter<&mut T, 2> {
        [&mut self.entry, &mut self.other].into_iter()
    }
}
/// Going through all entries: what is done to both is done to every one.
impl<'a, T> IntoIterator for &'a mut Table<T> {
    type Item = &'a mut T;
    type IntoIter = std::array::IntoIter<&'a mut T, 2>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<T> Table<T> {
    pub fn many(len: usize, entry: T, other: T) -> Table<T> {
        Table { len, at: kani::any(), strict: false, with: usize::MAX, guess: true, used: std::cell::Cell::new(0), entry, other }
    }
    /// A table of 4 equal entries.
    pub fn four(entry: T, other: T) -> Table<T> {
        Table { len: 4, at: 0, strict: false, with: usize::MAX, guess: false, used: std::cell::Cell::new(0), entry, other }
    }
}
impl<T> std::ops::Index<usize> for Table<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        if self.use_index(i) { &self.entry } else { &self.other }
    }
}
impl<T> std::ops::IndexMut<usize> for Table<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        if self.use_index(i) { &mut self.entry } else { &mut self.other }
    }
}
impl<T> std::iter::FromIterator<T> for Table<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut it = it.into_iter();
        let (len, hi) = it.size_hint();
        assert!(hi == Some(len) && len >= 2);
        let entry = it.next().unwrap();
        let other = it.next().unwrap();
        std::mem::forget(it);
        Table { len, at: 0, strict: false, with: usize::MAX, guess: false, used: std::cell::Cell::new(0), entry, other }
    }
}

/// The harnesses of a layered item with one layer (lane 0) and 4 contexts. The file has `comp`,
/// `deco` (loaded), `comp_st`, `deco_st` (contexts not in use are left out), `loaded` and `selected`
/// for both versions, and St with `used`, `ctx`, `changed`, `last(i)`.
macro_rules! layered_codec {
    ($comp:ident, $deco:ident, $size:expr, $unwind:expr, $events:expr, $bit:expr, $(#[$extra:meta])*) => {
        type Src = g::Bytes;
        fn one<const V: usize>() {
            let s = St::any();
            kani::assume(s.ok());
            let ctx: usize = kani::any();
            kani::assume(ctx < 4);
            let mut c = comp::<V>(&s, ctx);
            let mut d = deco::<V>(&s, ctx);
            let (mut cc, mut dc) = (ctx, ctx);
            let rec: [u8; $size] = kani::any();
            let mut out: [u8; $size] = kani::any();
            assert!(LayeredFieldCompressor::<g::Bytes>::compress_field_with(&mut c, &rec, &mut cc).is_ok());
            assert!(LayeredFieldDecompressor::<Src>::decompress_field_with(&mut d, &mut out, &mut dc).is_ok());
            assert!(g::same(&out, &rec), "decompressed record is the compressed one");
            assert!(cc == ctx && dc == ctx, "the context is the point's to choose");
            g::all_read();
            let t = comp_st(&c);
            assert!(t.is(&deco_st(&d)), "both sides end in corresponding states");
            assert!(t.ok(), "invariant of the state");
            assert!(t.changed || !s.changed, "a layer that has changed stays so");
            kani::cover!(g::written(0) == $events);
            // no layer is written if nothing changed: the decompressor comes to the same without it
            let mut d2 = deco::<V>(&s, ctx);
            d2.should_decompress = false;
            let mut out: [u8; $size] = kani::any();
            assert!(LayeredFieldDecompressor::<Src>::decompress_field_with(&mut d2, &mut out, &mut dc).is_ok());
            if !t.changed {
                assert!(g::same(&out, &rec), "record of an unchanged layer");
                assert!(t.last_is(&deco_st(&d2)), "both sides end in corresponding states");
            }
            std::mem::forget((c, d, d2));
        }
        // a field that is not selected keeps the value of the first point
        fn keeps<const V: usize>() {
            let mut s = St::any();
            s.level();
            kani::assume(s.ok());
            let mut ctx: usize = kani::any();
            kani::assume(ctx < 4);
            let mut d = deco::<V>(&s, ctx);
            d.should_decompress = false;
            let mut out: [u8; $size] = kani::any();
            assert!(LayeredFieldDecompressor::<Src>::decompress_field_with(&mut d, &mut out, &mut ctx).is_ok());
            assert!(g::same(&out, &s.record()), "a field not selected keeps its first value");
            let mut t = deco_st(&d);
            let after = t;
            t.level_to(&s);
            assert!(after.last_is(&t), "every context keeps the first value");
            assert!(t.ok());
            kani::cover!(true);
            std::mem::forget(d);
        }
        fn begin<const V: usize>() {
            let ctx = g::any_context();
            let (mut c, mut d) = (newc::<V>(ctx), newd::<V>(ctx));
            let (mut cc, mut dc) = (ctx, ctx);
            let rec: [u8; $size] = kani::any();
            let mut out: [u8; $size] = kani::any();
            let mut sink = g::Bytes::new();
            assert!(c.init_first_point(&mut sink, &rec, &mut cc).is_ok());
            assert!(sink.is(&rec), "first record is stored as it is");
            assert!(d.init_first_point(&mut sink, &mut out, &mut dc).is_ok());
            assert!(g::same(&out, &rec) && sink.at == $size && cc == ctx && dc == ctx);
            let t = comp_st(&c);
            assert!(t.is(&deco_st(&d)) && t.ok() && !t.changed && t.ctx == ctx);
            assert!(g::same(&t.record(), &rec), "the first record is the prediction");
            kani::cover!(true);
            std::mem::forget((c, d));
        }
        fn layer<const V: usize>(changed: bool, requested: bool) {
            g::restart();
            let (mut c, mut d) = (newc::<V>(0), newd::<V>(0));
            set_changed(&mut c, changed);
            d.should_decompress = kani::any();
            d.is_requested = requested;
            g::any_content(0);
            let mut sink = g::Bytes::new();
            assert!(c.write_layers_sizes(&mut sink).is_ok());
            assert!(c.write_layers(&mut sink).is_ok());
            let n = if changed { g::CONTENT_LEN } else { 0 };
            assert!(sink.n == 4 + n, "size and bytes of the layer");
            assert!(d.read_layers_sizes(&mut sink).is_ok());
            assert!(d.read_layers(&mut sink).is_ok());
            assert!(sink.at == sink.n, "the layer is read or skipped, no more and no less");
            let wanted = requested && changed;
            assert!(d.should_decompress == wanted, "selected layers with data are decoded");
            g::layer_loaded(0, wanted);
            std::mem::forget((c, d));
        }
        fn all_layers<const V: usize>() {
            layer::<V>(true, true);
            layer::<V>(true, false);
            layer::<V>(false, true);
            // which layer a selection asks for
            let (c, mut d) = (newc::<V>(0), newd::<V>(0));
            assert!(d.is_requested, "everything is decoded unless told otherwise");
            d.is_requested = kani::any();
            let sel: u32 = kani::any();
            LayeredFieldDecompressor::<Src>::set_selection(&mut d, DecompressionSelection(sel));
            assert!(d.is_requested == (sel & $bit != 0), "the layer is decoded if it is selected");
            kani::cover!(d.is_requested);
            kani::cover!(!d.is_requested);
            std::mem::forget((c, d));
        }
        g::field_harness!(step3, $unwind, $(#[$extra])* { one::<3>() });
        g::field_harness!(step4, $unwind, $(#[$extra])* { one::<4>() });
        g::field_harness!(unselected3, $unwind, $(#[$extra])* { keeps::<3>() });
        g::field_harness!(unselected4, $unwind, $(#[$extra])* { keeps::<4>() });
        g::field_harness!(first3, 34, { begin::<3>() });
        g::field_harness!(first4, 34, { begin::<4>() });
        g::layer_harness!(layers3, 10, { all_layers::<3>() });
        g::layer_harness!(layers4, 10, { all_layers::<4>() });
    };
}
pub(crate) use layered_codec;

/// A fresh codec of a layered item, of which context `ctx` can be touched.
macro_rules! layered_new {
    ($comp:ident, $deco:ident) => {
        pub fn newc<const V: usize>(ctx: usize) -> $comp<V> {
            let mut c = $comp::<V>::default();
            g::uniform();
            c.contexts.only(ctx);
            c
        }
        pub fn newd<const V: usize>(ctx: usize) -> $deco<V> {
            let mut d = $deco::<V>::default();
            g::uniform();
            d.contexts.only(ctx);
            d
        }
    };
}
pub(crate) use layered_new;

/// The common state of a layered item; `$t` is the last value of a context.
macro_rules! layered_state {
    ($t:ty, $zero:expr) => {
        #[derive(Clone, Copy, PartialEq)]
        #[repr(C)]
        pub struct St {
            pub ctx: usize,
            pub used: [bool; 4],
            pub last: [$t; 4],
            pub changed: bool,
        }
        impl St {
            pub fn any() -> St {
                St { ctx: kani::any(), used: kani::any(), last: kani::any(), changed: kani::any() }.clean()
            }
            pub fn ok(&self) -> bool {
                self.ctx < 4 && self.used[self.ctx % 4]
            }
            /// Values of contexts not in use do not matter.
            pub fn clean(mut self) -> St {
                let mut i = 0;
                while i < 4 {
                    if !self.used[i] {
                        self.last[i] = $zero;
                    }
                    i += 1;
                }
                self
            }
            pub fn last_is(&self, o: &St) -> bool {
                let u = (self.used[0] == o.used[0]) & (self.used[1] == o.used[1]) & (self.used[2] == o.used[2]) & (self.used[3] == o.used[3]);
                let l = (self.last[0] == o.last[0]) & (self.last[1] == o.last[1]) & (self.last[2] == o.last[2]) & (self.last[3] == o.last[3]);
                u & l & (self.ctx == o.ctx)
            }
            pub fn is(&self, o: &St) -> bool {
                self.last_is(o)
            }
            /// All contexts hold the same value.
            pub fn level(&mut self) {
                self.last = [self.last[self.ctx % 4]; 4];
                *self = self.clean();
            }
            pub fn level_to(&mut self, s: &St) {
                self.last = [s.last[s.ctx % 4]; 4];
                *self = self.clean();
            }
        }
    };
}
pub(crate) use layered_state;

/// Which contexts are in use: as they were (USED) but for the one that could be touched.
pub fn used_of<T>(t: &Table<T>, f: impl Fn(&T) -> bool) -> [bool; 4] {
    let mut r = unsafe { USED };
    if unsafe { UNIFORM } {
        r = [f(&t.other); 4];
    }
    r[t.at % 4] = f(&t.entry);
    r
}
pub fn set_used(u: &[bool; 4]) {
    unsafe {
        USED = *u;
        UNIFORM = false;
    }
}
/// All contexts but the represented one are alike (those of a fresh codec).
pub fn uniform() {
    unsafe { UNIFORM = true };
}
pub fn any_context() -> usize {
    let c: usize = kani::any();
    kani::assume(c < 4);
    c
}
