//! Child of `las::point0::v1`: one record from every pair of corresponding states.
use super::*;
use crate::compressors::verif_kani as cx;
use crate::decompressors::verif_kani as dx;
use crate::verif_ghost as g;

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct St {
    pub last: [u8; 20],
    pub canonical: bool,
    pub x: [i32; 3],
    pub y: [i32; 3],
    pub incr: usize,
    // an entry of the tables of models that exists already; the others do not
    pub slot: u8,
}
impl St {
    pub fn any() -> St {
        St { last: kani::any(), canonical: true, x: kani::any(), y: kani::any(), incr: kani::any(), slot: kani::any() }
    }
    pub fn ok(&self) -> bool {
        self.incr < 3 && self.canonical
    }
}
fn tables(t: [&mut g::Table<Option<ArithmeticModel>>; 3], slot: u8) {
    let mut id = 10;
    for v in t {
        assert!(v.len == 256 && v.entry.is_none() && v.other.is_none());
        let mut m = ArithmeticModelBuilder::new(256).build();
        g::tag(&mut m, id);
        v.at = slot as usize;
        std::mem::forget(std::mem::replace(&mut v.entry, Some(m)));
        id += 1;
    }
}
fn pack(p: &Point0) -> ([u8; 20], bool) {
    let mut b = [0u8; 20];
    p.pack_into(&mut b);
    (b, Point0::unpack_from(&b) == *p)
}
pub fn comp(s: &St) -> LasPoint0Compressor {
    let mut c = LasPoint0Compressor::default();
    tables([&mut c.bit_byte_models, &mut c.classification_models, &mut c.user_data_models], s.slot);
    g::tag(&mut c.changed_values_model, 1);
    assert!(cx::ready(&c.ic_dx) && cx::ready(&c.ic_dy) && cx::ready(&c.ic_dz) && cx::ready(&c.ic_intensity) && cx::ready(&c.ic_scan_angle_rank) && cx::ready(&c.ic_point_source_id));
    cx::tag(&mut c.ic_dx, 2);
    cx::tag(&mut c.ic_dy, 3);
    cx::tag(&mut c.ic_dz, 4);
    cx::tag(&mut c.ic_intensity, 5);
    cx::tag(&mut c.ic_scan_angle_rank, 6);
    cx::tag(&mut c.ic_point_source_id, 7);
    c.last_point = Point0::unpack_from(&s.last);
    c.last_x_diffs = s.x;
    c.last_y_diffs = s.y;
    c.last_incr = s.incr;
    c
}
pub fn comp_st(c: &LasPoint0Compressor) -> St {
    let (last, canonical) = pack(&c.last_point);
    St { last, canonical, x: c.last_x_diffs, y: c.last_y_diffs, incr: c.last_incr, slot: 0 }
}
pub fn deco(s: &St) -> LasPoint0Decompressor {
    let mut c = LasPoint0Decompressor::default();
    tables([&mut c.bit_byte_models, &mut c.classification_models, &mut c.user_data_models], s.slot);
    g::tag(&mut c.changed_values_model, 1);
    assert!(dx::ready(&c.ic_dx) && dx::ready(&c.ic_dy) && dx::ready(&c.ic_dz) && dx::ready(&c.ic_intensity) && dx::ready(&c.ic_scan_angle_rank) && dx::ready(&c.ic_point_source_id));
    dx::tag(&mut c.ic_dx, 2);
    dx::tag(&mut c.ic_dy, 3);
    dx::tag(&mut c.ic_dz, 4);
    dx::tag(&mut c.ic_intensity, 5);
    dx::tag(&mut c.ic_scan_angle_rank, 6);
    dx::tag(&mut c.ic_point_source_id, 7);
    c.last_point = Point0::unpack_from(&s.last);
    c.last_x_diffs = s.x;
    c.last_y_diffs = s.y;
    c.last_incr = s.incr;
    c
}
pub fn deco_st(c: &LasPoint0Decompressor) -> St {
    let (last, canonical) = pack(&c.last_point);
    St { last, canonical, x: c.last_x_diffs, y: c.last_y_diffs, incr: c.last_incr, slot: 0 }
}

g::legacy_codec!(LasPoint0Compressor, LasPoint0Decompressor, 20, 22, 10,);
