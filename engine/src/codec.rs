//! Record level: compress a sequence of records with the real record compressors, decompress.
use crate::gen::{self, Rng, Style};
use laz::record::*;
use laz::{DecompressionSelection, LazItem, LazItemType};
use std::io::Cursor;

pub fn compress_records(items: &Vec<LazItem>, pts: &[u8], size: usize) -> Vec<u8> {
    let mut out = Cursor::new(Vec::new());
    if items[0].version() <= 2 {
        let mut c = SequentialPointRecordCompressor::new(&mut out);
        c.set_fields_from(items).unwrap();
        for p in pts.chunks_exact(size) {
            c.compress_next(p).unwrap();
        }
        c.done().unwrap();
    } else {
        let mut c = LayeredPointRecordCompressor::new(&mut out);
        c.set_fields_from(items).unwrap();
        for p in pts.chunks_exact(size) {
            c.compress_next(p).unwrap();
        }
        c.done().unwrap();
    }
    out.into_inner()
}

pub fn decompress_records(
    items: &Vec<LazItem>,
    data: &[u8],
    n: usize,
    size: usize,
    sel: DecompressionSelection,
    fill: u8,
) -> Result<(Vec<u8>, u64), String> {
    let mut res = vec![fill; n * size];
    let src = Cursor::new(data);
    let pos;
    if items[0].version() <= 2 {
        let mut d = SequentialPointRecordDecompressor::new(src);
        d.set_fields_from(items).map_err(|e| e.to_string())?;
        d.set_selection(sel);
        for p in res.chunks_exact_mut(size) {
            d.decompress_next(p).map_err(|e| format!("decompress: {e}"))?;
        }
        pos = d.into_inner().position();
    } else {
        let mut d = LayeredPointRecordDecompressor::new(src);
        d.set_fields_from(items).map_err(|e| e.to_string())?;
        d.set_selection(sel);
        for p in res.chunks_exact_mut(size) {
            d.decompress_next(p).map_err(|e| format!("decompress: {e}"))?;
        }
        pos = d.into_inner().position();
    }
    Ok((res, pos))
}

pub fn first_diff(a: &[u8], b: &[u8], size: usize) -> String {
    for (i, (x, y)) in a.chunks(size).zip(b.chunks(size)).enumerate() {
        if x != y {
            let lo = i.saturating_sub(1) * size;
            return format!(
                "point {i}: previous {:02x?} expected {:02x?} got {:02x?}",
                &a[lo..lo + size],
                x,
                y
            );
        }
    }
    "lengths differ".into()
}

pub fn style(rng: &mut Rng) -> Style {
    *rng.pick(&[Style::Smooth, Style::Wild, Style::Mixed, Style::Repeat])
}

fn roundtrip(rng: &mut Rng, items: Vec<LazItem>) -> Result<(), String> {
    let st = style(rng);
    let n = match rng.below(8) {
        0 => 1,
        1 => 2,
        2..=5 => 3 + rng.below(60) as usize,
        6 => 100 + rng.below(400) as usize,
        _ => 500 + rng.below(2500) as usize,
    };
    let size: usize = items.iter().map(|i| i.size() as usize).sum();
    let pts = gen::points(rng, &items, n, st);
    let cfg = format!("items {items:?} style {st:?} n {n}");
    let data = compress_records(&items, &pts, size);
    let (res, _) = decompress_records(&items, &data, n, size, DecompressionSelection::all(), 0xA5)
        .map_err(|e| format!("{cfg}: {e}"))?;
    if res != pts {
        return Err(format!("{cfg}: {}", first_diff(&pts, &res, size)));
    }
    Ok(())
}

/// one item at a time: long streams of a single kind reach more of its contexts
pub fn single_legacy(rng: &mut Rng, version: u16) -> Vec<LazItem> {
    let t = match rng.below(5) {
        0 => LazItemType::Point10,
        1 => LazItemType::GpsTime,
        2 => LazItemType::RGB12,
        3 => LazItemType::WavePacket13,
        _ => LazItemType::Byte(1 + rng.below(6) as u16),
    };
    vec![gen::item(t, version)]
}

pub fn legacy(rng: &mut Rng) -> Result<(), String> {
    let version = 1 + rng.below(2) as u16;
    let items = if rng.chance(2, 3) {
        single_legacy(rng, version)
    } else {
        gen::legacy_items(rng, version)
    };
    roundtrip(rng, items)
}

pub fn layered(rng: &mut Rng) -> Result<(), String> {
    let version = 3 + rng.below(2) as u16;
    let items = gen::layered_items(rng, version);
    roundtrip(rng, items)
}
