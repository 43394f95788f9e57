//! Child of `las::point0::v2`: one record from every pair of corresponding states.
use super::*;
use crate::compressors::verif_kani as cx;
use crate::decompressors::verif_kani as dx;
use crate::las::utils::verif_kani as ux;
use crate::verif_ghost as g;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct St {
    // with the intensity the decompressor has there: the last one of the return map entry of the point
    pub last: [u8; 20],
    pub canonical: bool,
    pub intensity: [u16; 16],
    pub height: [i32; 8],
    // entry `map` of the medians, and another one
    pub x: [ux::Med; 2],
    pub y: [ux::Med; 2],
    pub map: u8,
    pub slot: u8,
}
fn m_of(p: &Point0) -> usize {
    utils::NUMBER_RETURN_MAP[p.number_of_returns_of_given_pulse as usize][p.return_number as usize] as usize
}
impl PartialEq for St {
    fn eq(&self, o: &St) -> bool {
        let mut r = g::same(&self.last, &o.last) & (self.canonical == o.canonical);
        let mut i = 0;
        while i < 16 {
            r = r & (self.intensity[i] == o.intensity[i]) & (i >= 8 || self.height[i % 8] == o.height[i % 8]);
            i += 1;
        }
        i = 0;
        while i < 5 {
            r = r & (self.x[0].0[i] == o.x[0].0[i]) & (self.x[1].0[i] == o.x[1].0[i]) & (self.y[0].0[i] == o.y[0].0[i]) & (self.y[1].0[i] == o.y[1].0[i]);
            i += 1;
        }
        r & (self.x[0].1 == o.x[0].1) & (self.x[1].1 == o.x[1].1) & (self.y[0].1 == o.y[0].1) & (self.y[1].1 == o.y[1].1)
    }
}
impl St {
    pub fn any() -> St {
        St { last: kani::any(), canonical: true, intensity: kani::any(), height: kani::any(), x: kani::any(), y: kani::any(), map: kani::any(), slot: kani::any() }
    }
    pub fn ok(&self) -> bool {
        let p = Point0::unpack_from(&self.last);
        self.map < 16 && self.canonical && p.intensity == self.intensity[m_of(&p)]
    }
}
fn common(c: &mut Common, s: &St) {
    assert!(c.last_x_diff_median.len == 16 && c.last_y_diff_median.len == 16 && c.scan_angle_rank.len == 2);
    assert!(c.bit_byte.len == 256 && c.classification.len == 256 && c.user_data.len == 256);
    c.last_intensity = s.intensity;
    c.last_height = s.height;
    c.last_x_diff_median.at = s.map as usize;
    c.last_y_diff_median.at = s.map as usize;
    ux::set(&mut c.last_x_diff_median.entry, &s.x[0]);
    ux::set(&mut c.last_x_diff_median.other, &s.x[1]);
    ux::set(&mut c.last_y_diff_median.entry, &s.y[0]);
    ux::set(&mut c.last_y_diff_median.other, &s.y[1]);
    g::tag(&mut c.changed_values, 1);
    g::tag(&mut c.scan_angle_rank.entry, 8);
    g::tag(&mut c.scan_angle_rank.other, 9);
    c.bit_byte.at = s.slot as usize;
    c.classification.at = s.slot as usize;
    c.user_data.at = s.slot as usize;
    g::tag(&mut c.bit_byte.entry, 10);
    g::tag(&mut c.classification.entry, 11);
    g::tag(&mut c.user_data.entry, 12);
}
fn st(c: &Common, p: &Point0) -> St {
    let mut last = [0u8; 20];
    p.pack_into(&mut last);
    let (x, y) = (&c.last_x_diff_median, &c.last_y_diff_median);
    St { last, canonical: Point0::unpack_from(&last) == *p, intensity: c.last_intensity, height: c.last_height,
         x: [ux::get(&x.entry), ux::get(&x.other)], y: [ux::get(&y.entry), ux::get(&y.other)], map: 0, slot: 0 }
}
pub fn comp(s: &St) -> LasPoint0Compressor {
    let mut c = LasPoint0Compressor::default();
    assert!(cx::ready(&c.ic_dx) && cx::ready(&c.ic_dy) && cx::ready(&c.ic_z) && cx::ready(&c.ic_intensity) && cx::ready(&c.ic_point_source_id));
    cx::tag(&mut c.ic_dx, 2);
    cx::tag(&mut c.ic_dy, 3);
    cx::tag(&mut c.ic_z, 4);
    cx::tag(&mut c.ic_intensity, 5);
    cx::tag(&mut c.ic_point_source_id, 7);
    c.last_point = Point0::unpack_from(&s.last);
    // not used by the compressor
    c.last_point.intensity = kani::any();
    common(&mut c.common, s);
    c
}
pub fn comp_st(c: &LasPoint0Compressor) -> St {
    let mut p = c.last_point;
    p.intensity = c.common.last_intensity[m_of(&p)];
    st(&c.common, &p)
}
pub fn deco(s: &St) -> LasPoint0Decompressor {
    let mut c = LasPoint0Decompressor::default();
    assert!(dx::ready(&c.ic_dx) && dx::ready(&c.ic_dy) && dx::ready(&c.ic_z) && dx::ready(&c.ic_intensity) && dx::ready(&c.ic_point_source_id));
    dx::tag(&mut c.ic_dx, 2);
    dx::tag(&mut c.ic_dy, 3);
    dx::tag(&mut c.ic_z, 4);
    dx::tag(&mut c.ic_intensity, 5);
    dx::tag(&mut c.ic_point_source_id, 7);
    c.last_point = Point0::unpack_from(&s.last);
    common(&mut c.common, s);
    c
}
pub fn deco_st(c: &LasPoint0Decompressor) -> St {
    st(&c.common, &c.last_point)
}

g::legacy_codec!(LasPoint0Compressor, LasPoint0Decompressor, 20, 22, 9, #[kani::stub(crate::las::utils::StreamingMedian::add, crate::las::utils::verif_kani::some_add)]);
