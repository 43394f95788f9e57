//! Child of `las::wavepacket::v1`: one record from every pair of corresponding states.
use super::super::verif_kani::{bits, make, Bits};
use super::*;
use crate::compressors::verif_kani as cx;
use crate::decompressors::verif_kani as dx;
use crate::verif_ghost as g;

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct St {
    pub last: Bits,
    pub diff: i32,
    pub sym: u32,
}
impl St {
    pub fn any() -> St {
        St { last: kani::any(), diff: kani::any(), sym: kani::any() }
    }
    pub fn ok(&self) -> bool {
        self.sym < 4
    }
}
pub fn comp(s: &St) -> LasWavepacketCompressor {
    comp_tagged(s, 0)
}
pub fn comp_tagged(s: &St, base: u32) -> LasWavepacketCompressor {
    let mut c = LasWavepacketCompressor::default();
    g::tag(&mut c.packet_index_model, base + 1);
    let mut i = 0;
    while i < 4 {
        g::tag(&mut c.offset_diff_model[i], base + 2 + i as u32);
        i += 1;
    }
    assert!(cx::ready(&c.ic_offset_diff) && cx::ready(&c.ic_packet_size) && cx::ready(&c.ic_return_point) && cx::ready(&c.ic_xyz));
    cx::tag(&mut c.ic_offset_diff, base + 6);
    cx::tag(&mut c.ic_packet_size, base + 7);
    cx::tag(&mut c.ic_return_point, base + 8);
    cx::tag(&mut c.ic_xyz, base + 9);
    c.last_wavepacket = make(&s.last);
    c.last_offset_diff = s.diff;
    c.last_sym_offset_diff = s.sym;
    c
}
pub fn comp_st(c: &LasWavepacketCompressor) -> St {
    St { last: bits(&c.last_wavepacket), diff: c.last_offset_diff, sym: c.last_sym_offset_diff }
}
pub fn deco(s: &St) -> LasWavepacketDecompressor {
    deco_tagged(s, 0)
}
pub fn deco_tagged(s: &St, base: u32) -> LasWavepacketDecompressor {
    let mut c = LasWavepacketDecompressor::default();
    g::tag(&mut c.packet_index_model, base + 1);
    let mut i = 0;
    while i < 4 {
        g::tag(&mut c.offset_diff_model[i], base + 2 + i as u32);
        i += 1;
    }
    assert!(dx::ready(&c.idc_offset_diff) && dx::ready(&c.idc_packet_size) && dx::ready(&c.idc_return_point) && dx::ready(&c.idc_xyz));
    dx::tag(&mut c.idc_offset_diff, base + 6);
    dx::tag(&mut c.idc_packet_size, base + 7);
    dx::tag(&mut c.idc_return_point, base + 8);
    dx::tag(&mut c.idc_xyz, base + 9);
    c.last_wavepacket = make(&s.last);
    c.last_offset_diff = s.diff;
    c.last_sym_offset_diff = s.sym;
    c
}
pub fn deco_st(c: &LasWavepacketDecompressor) -> St {
    St { last: bits(&c.last_wavepacket), diff: c.last_offset_diff, sym: c.last_sym_offset_diff }
}

/// Contract of the codec above, for `v3_v4` (shown by `step` and `first`): a record compressed in
/// some state comes back from the corresponding state, and both states go on corresponding. `id`
/// and the number of records `n` identify the state, together with the last record.
#[derive(Default)]
pub struct Item {
    pub last_wavepacket: LasWavepacket,
    pub id: u32,
    pub n: u32,
}
static mut RECORD: (Bits, [u8; 29]) = ((0, 0, 0, [0; 4]), [0; 29]);
impl<W: Write> crate::record::FieldCompressor<W> for Item {
    fn size_of_field(&self) -> usize {
        29
    }
    fn compress_first(&mut self, dst: &mut W, buf: &[u8]) -> std::io::Result<()> {
        assert!(buf.len() == 29);
        self.last_wavepacket = LasWavepacket::unpack_from(buf);
        dst.write_all(buf)
    }
    fn compress_with(&mut self, e: &mut ArithmeticEncoder<W>, buf: &[u8]) -> std::io::Result<()> {
        assert!(buf.len() == 29);
        g::put(e.lane(), g::Ev { kind: g::REC, id: self.id, ctx: self.n, a: 0, b: 0 });
        unsafe {
            RECORD.0 = bits(&self.last_wavepacket);
            RECORD.1.copy_from_slice(buf);
        }
        self.n = self.n.wrapping_add(1);
        self.last_wavepacket = LasWavepacket::unpack_from(buf);
        Ok(())
    }
}
impl<R: Read> FieldDecompressor<R> for Item {
    fn size_of_field(&self) -> usize {
        29
    }
    fn decompress_first(&mut self, src: &mut R, buf: &mut [u8]) -> std::io::Result<()> {
        self.last_wavepacket = read_and_unpack(src, buf)?;
        Ok(())
    }
    fn decompress_with(&mut self, d: &mut ArithmeticDecoder<R>, buf: &mut [u8]) -> std::io::Result<()> {
        assert!(buf.len() == 29);
        g::get(d.lane(), g::REC, self.id, self.n);
        unsafe {
            assert!(RECORD.0 == bits(&self.last_wavepacket), "both sides predict from the same record");
            buf.copy_from_slice(&RECORD.1);
        }
        self.n = self.n.wrapping_add(1);
        self.last_wavepacket = LasWavepacket::unpack_from(buf);
        Ok(())
    }
}

g::legacy_codec!(LasWavepacketCompressor, LasWavepacketDecompressor, 29, 32, 8,);
