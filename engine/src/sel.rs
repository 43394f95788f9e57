//! Selective decompression, comparison with the frozen reference, damaged input.
use crate::codec::{compress_records, decompress_records, first_diff, style};
use crate::gen::{self, Rng};
use laz::{DecompressionSelection, LazItemType};

type Res = Result<(), String>;

/// For every byte of a layered record: mask of the bits governed by each selection flag.
pub fn masks(items: &[laz::LazItem]) -> Vec<Vec<(u32, u8)>> {
    type S = DecompressionSelection;
    let mut m: Vec<Vec<(u32, u8)>> = vec![];
    for it in items {
        match it.item_type() {
            LazItemType::Point14 => {
                for _ in 0..8 { m.push(vec![]) } // x y
                for _ in 8..12 { m.push(vec![(S::Z, 255)]) }
                for _ in 12..14 { m.push(vec![(S::INTENSITY, 255)]) }
                m.push(vec![]); // returns
                m.push(vec![(S::FLAGS, 0b1100_1111)]); // channel always
                m.push(vec![(S::CLASSIFICATION, 255)]);
                m.push(vec![(S::USER_DATA, 255)]);
                for _ in 18..20 { m.push(vec![(S::SCAN_ANGLE, 255)]) }
                for _ in 20..22 { m.push(vec![(S::POINT_SOURCE_ID, 255)]) }
                for _ in 22..30 { m.push(vec![(S::GPS_TIME, 255)]) }
            }
            LazItemType::RGB14 => for _ in 0..6 { m.push(vec![(S::RGB, 255)]) },
            LazItemType::RGBNIR14 => {
                for _ in 0..6 { m.push(vec![(S::RGB, 255)]) }
                for _ in 0..2 { m.push(vec![(S::NIR, 255)]) }
            }
            LazItemType::WavePacket14 => for _ in 0..29 { m.push(vec![(S::WAVEPACKET, 255)]) },
            LazItemType::Byte14(n) => for _ in 0..n { m.push(vec![(S::ALL_EXTRA_BYTES, 255)]) },
            _ => for _ in 0..it.size() { m.push(vec![]) },
        }
    }
    m
}

pub fn selection(rng: &mut Rng) -> DecompressionSelection {
    match rng.below(4) {
        0 => DecompressionSelection::all(),
        1 => DecompressionSelection(0),
        2 => DecompressionSelection(1 << rng.below(12)),
        _ => DecompressionSelection(rng.next() as u32),
    }
}

/// What a selective decompression of the points must give; `chunks` holds the chunk point counts.
pub fn expected(items: &[laz::LazItem], pts: &[u8], size: usize, chunks: &[usize], sel: DecompressionSelection) -> Vec<u8> {
    let mut out = pts.to_vec();
    if items[0].version() <= 2 {
        return out;
    }
    let m = masks(items);
    let mut i = 0;
    for c in chunks {
        let first = pts[i * size..].get(..size).map(|s| s.to_vec());
        for p in i..i + c {
            for (b, ms) in m.iter().enumerate() {
                for (flag, mask) in ms {
                    if sel.0 & flag == 0 {
                        let f = first.as_ref().unwrap()[b];
                        let o = &mut out[p * size + b];
                        *o = (*o & !mask) | (f & mask);
                    }
                }
            }
        }
        i += c;
    }
    out
}

pub fn selective(rng: &mut Rng) -> Res {
    let items = if rng.chance(1, 10) {
        let v = 1 + rng.below(2) as u16;
        gen::legacy_items(rng, v)
    } else {
        let v = 3 + rng.below(2) as u16;
        gen::layered_items(rng, v)
    };
    let st = style(rng);
    let n = 1 + rng.below(300) as usize;
    let size: usize = items.iter().map(|i| i.size() as usize).sum();
    let pts = gen::points(rng, &items, n, st);
    let sel = selection(rng);
    let data = compress_records(&items, &pts, size);
    let fill = rng.next() as u8;
    let cfg = format!("items {items:?} selection {:#x} n {n}", sel.0);
    let (res, _) = decompress_records(&items, &data, n, size, sel, fill).map_err(|e| format!("{cfg}: {e}"))?;
    let want = expected(&items, &pts, size, &[n], sel);
    if res != want {
        return Err(format!("{cfg}: {}", first_diff(&want, &res, size)));
    }
    Ok(())
}

/// Same bytes as the frozen reference implementation, which must also decode them.
pub fn refdiff(rng: &mut Rng) -> Res {
    use laz_ref::record::*;
    let (items, v) = if rng.chance(1, 2) {
        let v = 1 + rng.below(2) as u16;
        (if rng.chance(1, 2) { crate::codec::single_legacy(rng, v) } else { gen::legacy_items(rng, v) }, v)
    } else {
        let v = 3 + rng.below(2) as u16;
        (gen::layered_items(rng, v), v)
    };
    let st = style(rng);
    let n = match rng.below(6) {
        0 => 1 + rng.below(4) as usize,
        1..=4 => 1 + rng.below(300) as usize,
        _ => 300 + rng.below(3000) as usize,
    };
    let size: usize = items.iter().map(|i| i.size() as usize).sum();
    let pts = gen::points(rng, &items, n, st);
    let data = compress_records(&items, &pts, size);
    let list: Vec<(LazItemType, u16)> = items.iter().map(|i| (i.item_type(), i.version())).collect();
    let bytes = gen::vlr_bytes(if v > 2 { 3 } else { 2 }, 1, &list);
    let ritems = laz_ref::LazVlr::read_from(&bytes[..]).unwrap().items().clone();
    let mut out = std::io::Cursor::new(Vec::new());
    let cfg = format!("items {list:?} style {st:?} n {n}");
    if v <= 2 {
        let mut c = SequentialPointRecordCompressor::new(&mut out);
        c.set_fields_from(&ritems).unwrap();
        for p in pts.chunks_exact(size) { c.compress_next(p).unwrap() }
        c.done().unwrap();
    } else {
        let mut c = LayeredPointRecordCompressor::new(&mut out);
        c.set_fields_from(&ritems).unwrap();
        for p in pts.chunks_exact(size) { c.compress_next(p).unwrap() }
        c.done().unwrap();
    }
    let refdata = out.into_inner();
    if data != refdata {
        let i = data.iter().zip(&refdata).position(|(a, b)| a != b).unwrap_or(data.len().min(refdata.len()));
        return Err(format!("{cfg}: compressed bytes differ from the LASzip format at byte {i} (lengths {} / {})", data.len(), refdata.len()));
    }
    // data of the reference (an earlier release) decodes to the same points
    let (res, _) = decompress_records(&items, &refdata, n, size, DecompressionSelection::all(), 0x77).map_err(|e| format!("{cfg}: {e}"))?;
    if res != pts {
        return Err(format!("{cfg}: reference data: {}", first_diff(&pts, &res, size)));
    }
    // whole file, chunk table included
    if rng.chance(1, 3) {
        let chunk = 1 + rng.below(200) as u32;
        let vlr = gen::vlr(items.clone(), Some(chunk));
        let mut vb = vec![];
        vlr.write_to(&mut vb).unwrap();
        let rv = laz_ref::LazVlr::read_from(&vb[..]).map_err(|e| e.to_string())?;
        let mut a = std::io::Cursor::new(vec![]);
        laz::compress_buffer(&mut a, &pts, vlr).map_err(|e| e.to_string())?;
        let mut b = std::io::Cursor::new(vec![]);
        laz_ref::compress_buffer(&mut b, &pts, rv).map_err(|e| e.to_string())?;
        if a.get_ref() != b.get_ref() {
            return Err(format!("{cfg}: chunked file differs from the format (chunk size {chunk})"));
        }
    }
    Ok(())
}

/// Damaged input: a value, an error or a panic; never anything else (run under a memory checker).
pub fn damaged(rng: &mut Rng) -> Res {
    let v = 1 + rng.below(4) as u16;
    let items = if v <= 2 { gen::legacy_items(rng, v) } else { gen::layered_items(rng, v) };
    let st = style(rng);
    let n = 1 + rng.below(120) as usize;
    let size: usize = items.iter().map(|i| i.size() as usize).sum();
    let pts = gen::points(rng, &items, n, st);
    let mut data = compress_records(&items, &pts, size);
    match rng.below(5) {
        0 => data.truncate(rng.below(data.len() as u64) as usize),
        1 | 2 => for _ in 0..1 + rng.below(20) {
            let i = rng.below(data.len() as u64) as usize;
            data[i] ^= 1 << rng.below(8);
        },
        3 => {
            let i = rng.below(data.len() as u64) as usize;
            let f = *rng.pick(&[0u8, 0xff]);
            // keep the layer sizes so that decoding gets anywhere
            let lo = if v > 2 { (size + 4 + 40).min(data.len()) } else { size.min(data.len()) };
            for b in data[i.max(lo)..].iter_mut() { *b = f }
        }
        _ => {
            let lo = if v > 2 { (size + 4 + 40).min(data.len()) } else { size.min(data.len()) };
            for b in data[lo..].iter_mut() { *b = rng.next() as u8 }
        }
    }
    if v > 2 && data.len() > size + 8 {
        // absurd layer sizes only make the decoder allocate; keep them below 1 MiB
        let mut o = size + 4;
        while o + 4 <= data.len().min(size + 4 + 80) {
            data[o + 3] = 0;
            data[o + 2] &= 0x0f;
            o += 4;
        }
    }
    let sel = selection(rng);
    let _ = std::panic::catch_unwind(|| {
        let _ = decompress_records(&items, &data, n, size, sel, 0);
    });
    Ok(())
}
