//! The coder, models, integer coders and layer helpers as types that consist of nothing but their
//! contract: a codec whose `use crate::encoders::..` (decoders, models, compressors, decompressors,
//! las::utils) are directed here is the same text, checked against the contracts of what it calls.
//! The contracts are those of `verif_ghost` and of the `verif_kani` modules of the real types.

/// Medians: `add` may be any function of the median and the value, `get` is its value.
pub mod utils {
    use super::decoders::ArithmeticDecoder;
    use super::encoders::ArithmeticEncoder;
    use crate::verif_ghost as g;
    pub use crate::las::utils::*;
    use std::io::{Cursor, Read, Result, Seek, Write};

    #[derive(Copy, Clone, PartialEq)]
    pub struct StreamingMedian<T: num_traits::Zero + Copy + PartialOrd> {
        value: T,
        rest: u64,
    }
    pub type Med = StreamingMedian<i32>;
    impl StreamingMedian<i32> {
        pub fn new() -> Self {
            Self { value: 0, rest: 0 }
        }
        pub fn any() -> Self {
            Self { value: kani::any(), rest: kani::any() }
        }
        pub fn is(&self, o: &Self) -> bool {
            (self.value == o.value) & (self.rest == o.rest)
        }
        pub fn get(&self) -> i32 {
            self.value
        }
        pub fn add(&mut self, v: i32) {
            unsafe {
                let mut r = Self::any();
                let n = ADDED.1;
                if n > 0 && ADDED.0[0].1 == v && ADDED.0[0].0.is(self) {
                    r = ADDED.0[0].2;
                } else if n > 1 && ADDED.0[1].1 == v && ADDED.0[1].0.is(self) {
                    r = ADDED.0[1].2;
                } else if n < 2 {
                    ADDED.0[n] = (*self, v, r);
                    ADDED.1 = n + 1;
                }
                *self = r;
            }
        }
    }
    const NONE: Med = StreamingMedian { value: 0, rest: 0 };
    static mut ADDED: ([(Med, i32, Med); 2], usize) = ([(NONE, 0, NONE); 2], 0);

    pub fn i32_quantize(x: f32) -> i32 {
        g::some_quantize(x)
    }
    pub fn inner_buffer_len_of(e: &ArithmeticEncoder<Cursor<Vec<u8>>>) -> usize {
        e.out.get_ref().len()
    }
    pub fn copy_encoder_content_to<W: Write>(e: &mut ArithmeticEncoder<Cursor<Vec<u8>>>, dst: &mut W) -> Result<()> {
        g::layer_out(e.lane as usize, dst)
    }
    pub fn copy_bytes_into_decoder<R: Read + Seek>(is_requested: bool, num_bytes: usize, d: &mut ArithmeticDecoder<Cursor<Vec<u8>>>, src: &mut R) -> Result<bool> {
        g::layer_in(is_requested, num_bytes, d.lane as usize, src)
    }
    pub fn read_and_unpack<R: Read, P: crate::packers::Packable>(src: &mut R, buf: &mut [u8]) -> Result<P> {
        crate::las::utils::read_and_unpack(src, buf)
    }
}

pub mod models {
    #[derive(Copy, Clone, PartialEq)]
    pub struct ArithmeticModel {
        pub id: u32,
        pub symbols: u32,
    }
    impl ArithmeticModel {
        pub fn new(symbols: u32, _compress: bool, _init: &[u32]) -> Self {
            assert!(symbols >= 2 && symbols <= 2048, "number of symbols of a model");
            Self { id: 0, symbols }
        }
    }
    #[derive(Copy, Clone, PartialEq)]
    pub struct ArithmeticBitModel {
        pub id: u32,
    }
    impl ArithmeticBitModel {
        pub fn new() -> Self {
            Self { id: 0 }
        }
    }
    pub struct ArithmeticModelBuilder {
        symbols: u32,
    }
    impl ArithmeticModelBuilder {
        pub fn new(symbols: u32) -> Self {
            Self { symbols }
        }
        pub fn with_compression(&mut self, _state: bool) -> &mut Self {
            self
        }
        pub fn build(&self) -> ArithmeticModel {
            ArithmeticModel::new(self.symbols, false, &[])
        }
    }
    /// A model that is made when first used, in a table of such.
    #[derive(Copy, Clone, PartialEq)]
    pub struct Lazy {
        pub there: bool,
        pub model: ArithmeticModel,
    }
    impl Lazy {
        pub fn get_or_insert_with<F: FnOnce() -> ArithmeticModel>(&mut self, f: F) -> &mut ArithmeticModel {
            let m = f();
            if !self.there {
                *self = Lazy { there: true, model: m };
            }
            &mut self.model
        }
    }
    impl std::iter::FromIterator<Option<ArithmeticModel>> for crate::verif_ghost::Table<Lazy> {
        fn from_iter<I: IntoIterator<Item = Option<ArithmeticModel>>>(it: I) -> Self {
            let mut it = it.into_iter();
            let (len, hi) = it.size_hint();
            assert!(hi == Some(len) && len >= 2);
            assert!(it.next().unwrap().is_none(), "models are made when first used");
            let l = Lazy { there: false, model: ArithmeticModel { id: 0, symbols: 0 } };
            crate::verif_ghost::Table::many(len, l, l)
        }
    }
}

pub mod encoders {
    use super::models::*;
    use crate::verif_ghost as g;
    use std::io::{Result, Write};
    pub struct ArithmeticEncoder<T: Write> {
        pub lane: u32,
        pub out: T,
    }
    impl<T: Write> ArithmeticEncoder<T> {
        pub fn new(out: T) -> Self {
            Self { lane: 0, out }
        }
        pub fn get_mut(&mut self) -> &mut T {
            &mut self.out
        }
        pub fn get_ref(&self) -> &T {
            &self.out
        }
        pub fn encode_symbol(&mut self, m: &mut ArithmeticModel, sym: u32) -> Result<()> {
            assert!(sym < m.symbols, "symbol within the alphabet of its model");
            if self.lane == 0 {
                g::note_encoded(m.id, sym);
            }
            g::put(self.lane, g::Ev { kind: g::SYM, id: m.id, ctx: m.symbols, a: sym as u64, b: 0 });
            Ok(())
        }
        pub fn encode_bit(&mut self, m: &mut ArithmeticBitModel, sym: u32) -> Result<()> {
            assert!(sym <= 1, "bit is 0 or 1");
            g::put(self.lane, g::Ev { kind: g::BIT, id: m.id, ctx: 0, a: sym as u64, b: 0 });
            Ok(())
        }
        pub fn write_bits(&mut self, bits: u32, sym: u32) -> Result<()> {
            assert!(bits > 0 && bits < 32 && sym < (1u32 << bits), "raw value fits its number of bits");
            g::put(self.lane, g::Ev { kind: g::RAW, id: bits, ctx: 0, a: sym as u64, b: 0 });
            Ok(())
        }
        pub fn write_int(&mut self, v: u32) -> Result<()> {
            g::put(self.lane, g::Ev { kind: g::INT, id: 0, ctx: 0, a: v as u64, b: 0 });
            Ok(())
        }
        pub fn write_int64(&mut self, v: u64) -> Result<()> {
            g::put(self.lane, g::Ev { kind: g::INT64, id: 0, ctx: 0, a: v, b: 0 });
            Ok(())
        }
        pub fn done(&mut self) -> Result<()> {
            g::layer_done(self.lane as usize, &mut self.out)
        }
    }
}

pub mod decoders {
    use super::models::*;
    use crate::verif_ghost as g;
    use std::io::{Read, Result};
    pub struct ArithmeticDecoder<T: Read> {
        pub lane: u32,
        pub input: T,
    }
    impl<T: Read> ArithmeticDecoder<T> {
        pub fn new(input: T) -> Self {
            Self { lane: 0, input }
        }
        pub fn get_mut(&mut self) -> &mut T {
            &mut self.input
        }
        pub fn get_ref(&self) -> &T {
            &self.input
        }
        pub fn read_init_bytes(&mut self) -> Result<()> {
            unsafe { g::INIT[self.lane as usize] += 1 };
            Ok(())
        }
        pub fn decode_symbol(&mut self, m: &mut ArithmeticModel) -> Result<u32> {
            let v = g::get(self.lane, g::SYM, m.id, m.symbols).a as u32;
            Ok(if self.lane == 0 { g::note_decoded(m.id, v) } else { v })
        }
        pub fn decode_bit(&mut self, m: &mut ArithmeticBitModel) -> Result<u32> {
            Ok(g::get(self.lane, g::BIT, m.id, 0).a as u32)
        }
        pub fn read_bits(&mut self, bits: u32) -> Result<u32> {
            Ok(g::get(self.lane, g::RAW, bits, 0).a as u32)
        }
        pub fn read_int(&mut self) -> Result<u32> {
            Ok(g::get(self.lane, g::INT, 0, 0).a as u32)
        }
        pub fn read_int_64(&mut self) -> Result<u64> {
            Ok(g::get(self.lane, g::INT64, 0, 0).a)
        }
    }
}

macro_rules! integer_coder {
    ($name:ident, $builder:ident) => {
        #[derive(Copy, Clone, PartialEq)]
        pub struct $name {
            pub id: u32,
            pub bits: u32,
            pub contexts: u32,
            pub ready: bool,
            pub k: u32,
        }
        impl $name {
            pub fn new(bits: u32, contexts: u32, _bits_high: u32, _range: u32) -> Self {
                assert!(bits == 8 || bits == 16 || bits == 32, "width of an integer coder");
                Self { id: 0, bits, contexts, ready: false, k: 0 }
            }
            pub fn init(&mut self) {
                self.ready = true;
            }
            pub fn k(&self) -> u32 {
                self.k
            }
        }
        pub struct $builder {
            bits: u32,
            contexts: u32,
        }
        impl $builder {
            pub fn new() -> Self {
                Self { bits: 16, contexts: 1 }
            }
            pub fn bits(&mut self, bits: u32) -> &mut Self {
                self.bits = bits;
                self
            }
            pub fn contexts(&mut self, contexts: u32) -> &mut Self {
                self.contexts = contexts;
                self
            }
            pub fn build(&self) -> $name {
                $name::new(self.bits, self.contexts, 8, 0)
            }
            pub fn build_initialized(&self) -> $name {
                let mut i = self.build();
                i.init();
                i
            }
        }
    };
}

pub mod compressors {
    use super::encoders::ArithmeticEncoder;
    use crate::compressors::verif_kani::within;
    pub use crate::compressors::{DEFAULT_BITS, DEFAULT_BITS_HIGH, DEFAULT_COMPRESS_CONTEXTS, DEFAULT_CONTEXTS, DEFAULT_RANGE};
    use crate::verif_ghost as g;
    use std::io::{Result, Write};
    integer_coder!(IntegerCompressor, IntegerCompressorBuilder);
    impl IntegerCompressor {
        pub fn compress<T: Write>(&mut self, e: &mut ArithmeticEncoder<T>, pred: i32, real: i32, context: u32) -> Result<()> {
            assert!(self.ready, "integer compressor is initialised");
            assert!(context < self.contexts, "context of an integer compressor exists");
            assert!(within(self.bits, real), "value within the width of its compressor");
            assert!(within(self.bits, pred), "prediction within the width of its compressor");
            let a = (pred as u32 as u64) << 32 | real as u32 as u64;
            self.k = g::some_k(e.lane, self.id, context, a, self.bits);
            g::put(e.lane, g::Ev { kind: g::IC, id: self.id, ctx: context, a, b: (self.bits as u64) << 32 | self.k as u64 });
            Ok(())
        }
    }
}

pub mod decompressors {
    use super::decoders::ArithmeticDecoder;
    use crate::compressors::verif_kani::{reduced, within};
    pub use crate::decompressors::DEFAULT_DECOMPRESS_CONTEXTS;
    use crate::verif_ghost as g;
    use std::io::{Read, Result};
    integer_coder!(IntegerDecompressor, IntegerDecompressorBuilder);
    impl IntegerDecompressor {
        pub fn decompress<T: Read>(&mut self, d: &mut ArithmeticDecoder<T>, pred: i32, context: u32) -> Result<i32> {
            assert!(self.ready, "integer decompressor is initialised");
            assert!(context < self.contexts, "context of an integer decompressor exists");
            let e = g::get(d.lane, g::IC, self.id, context);
            assert!((e.a >> 32) as u32 as i32 == pred, "decompressor has the prediction the compressor had");
            assert!(within(self.bits, pred), "prediction within the width");
            assert!((e.b >> 32) as u32 == self.bits, "decompressor has the width the compressor had");
            self.k = e.b as u32;
            Ok(reduced(self.bits, e.a as u32 as i32))
        }
    }
}
