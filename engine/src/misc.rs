//! VLR, chunk table, record layouts, slices.
use crate::gen::{self, Rng};
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::packers::Packable;
use laz::{LasZipCompressor, LasZipDecompressor, LazItemType, LazVlr, LazVlrBuilder};
use std::io::{Cursor, Seek, SeekFrom};

type Res = Result<(), String>;

#[path = "/repo/src/byteslice.rs"]
#[allow(dead_code, unused)]
mod byteslice;

/// Sizes of the point formats in the LAS specification
const FORMAT_SIZE: [u16; 11] = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67];

pub fn vlr(rng: &mut Rng) -> Res {
    // 1. arbitrary records survive bytes -> record -> bytes, with the fixed layout
    let compressor = rng.below(5) as u16;
    let mut b = vec![];
    b.extend_from_slice(&compressor.to_le_bytes());
    b.extend_from_slice(&(rng.next() as u16).to_le_bytes());
    b.extend_from_slice(&(rng.next() as u32).to_le_bytes());
    b.extend_from_slice(&(rng.next() as u32).to_le_bytes());
    let chunk = *rng.pick(&[0u32, 1, 50_000, u32::MAX, u32::MAX - 1, 0x8000_0000, 0x1234_5678]);
    b.extend_from_slice(&chunk.to_le_bytes());
    b.extend_from_slice(&rng.next().to_le_bytes());
    b.extend_from_slice(&rng.next().to_le_bytes());
    let n = rng.below(6) as u16;
    b.extend_from_slice(&n.to_le_bytes());
    let mut bad_item = None;
    let mut sizes = 0u64;
    let mut expect_items = vec![];
    for _ in 0..n {
        let t = if rng.chance(1, 12) { rng.below(70000) as u16 } else { *rng.pick(&[0u16, 6, 7, 8, 9, 10, 11, 12, 13, 14]) };
        let size = match t {
            0 | 14 => rng.below(3000) as u16,
            6 => 20,
            7 => 8,
            8 | 11 => 6,
            9 | 13 => 29,
            10 => 30,
            12 => 8,
            _ => 3,
        };
        let v = 1 + rng.below(4) as u16;
        let known = matches!(t, 0 | 6..=14);
        if !known && bad_item.is_none() {
            bad_item = Some(t);
        }
        sizes += size as u64;
        expect_items.push((t, size, v));
        b.extend_from_slice(&t.to_le_bytes());
        b.extend_from_slice(&size.to_le_bytes());
        b.extend_from_slice(&v.to_le_bytes());
    }
    match (LazVlr::read_from(&b[..]), compressor > 3 || bad_item.is_some()) {
        (Ok(_), true) => return Err(format!("accepted unknown compressor {compressor} or item {bad_item:?}")),
        (Err(e), false) => return Err(format!("refused a valid record {b:02x?}: {e}")),
        (Ok(v), false) => {
            let mut out = vec![];
            v.write_to(&mut out).map_err(|e| e.to_string())?;
            let mut want = b.clone();
            if chunk == 0 {
                want[12..16].copy_from_slice(&u32::MAX.to_le_bytes());
            }
            if out != want {
                return Err(format!("wrote {out:02x?} for {want:02x?}"));
            }
            if v.items_size() != sizes {
                return Err(format!("items_size {} for {sizes}", v.items_size()));
            }
            let var = chunk == 0 || chunk == u32::MAX;
            if v.uses_variable_size_chunks() != var || (!var && v.chunk_size() != chunk) {
                return Err(format!("chunk size {chunk} read as {} variable {}", v.chunk_size(), v.uses_variable_size_chunks()));
            }
            for (it, (t, size, ver)) in v.items().iter().zip(&expect_items) {
                if gen::code_of_item(it.item_type()) != *t || it.size() != *size || it.version() != *ver || u16::from(it.item_type()) != *t {
                    return Err(format!("item {t} {size} {ver} read as {it:?}"));
                }
            }
            if LazVlr::read_from(&out[..]).ok().as_ref() != Some(&v) || LazVlr::from_buffer(&out).ok().as_ref() != Some(&v) {
                return Err("reading back the written record gives another record".into());
            }
            let cut = rng.below(b.len() as u64) as usize;
            if LazVlr::read_from(&b[..cut]).is_ok() {
                return Err(format!("accepted a record truncated to {cut} of {} bytes", b.len()));
            }
        }
        (Err(_), true) => {}
    }
    // 2. generated items describe the point format
    let fmt = rng.below(13) as u8;
    let extra = match rng.below(4) {
        0 => 0u16,
        1 => rng.below(20) as u16,
        2 => rng.below(500) as u16,
        _ => rng.below(3000) as u16,
    };
    let built = LazVlrBuilder::default().with_point_format(fmt, extra);
    if fmt > 10 {
        return if built.is_ok() { Err(format!("point format {fmt} accepted")) } else { Ok(()) };
    }
    let builder = built.map_err(|e| e.to_string())?;
    let v = if rng.chance(1, 2) { builder.with_fixed_chunk_size(1 + rng.below(9) as u32).build() } else { builder.with_variable_chunk_size().build() };
    let size = FORMAT_SIZE[fmt as usize] + extra;
    if v.items_size() != size as u64 {
        return Err(format!("format {fmt} with {extra} extra bytes: items add up to {}", v.items_size()));
    }
    let layered = fmt >= 6;
    let mut bytes = vec![];
    v.write_to(&mut bytes).unwrap();
    let comp = u16::from_le_bytes([bytes[0], bytes[1]]);
    if comp != if layered { 3 } else { 2 } {
        return Err(format!("format {fmt}: compressor {comp}"));
    }
    for it in v.items() {
        if layered != (it.version() >= 3) || it.version() == 0 || it.version() > 4 {
            return Err(format!("format {fmt}: item {it:?}"));
        }
    }
    if extra < 200 {
        let pts = gen::points(rng, v.items(), 5, gen::Style::Mixed);
        let mut c = LasZipCompressor::new(Cursor::new(vec![]), v.clone()).map_err(|e| format!("format {fmt}: {e}"))?;
        c.compress_many(&pts).map_err(|e| e.to_string())?;
        c.done().map_err(|e| e.to_string())?;
        let f = c.into_inner().into_inner();
        let mut d = LasZipDecompressor::new(Cursor::new(f), v.clone()).map_err(|e| format!("format {fmt}: {e}"))?;
        let mut out = vec![0; pts.len()];
        d.decompress_many(&mut out).map_err(|e| e.to_string())?;
        if out != pts {
            return Err(format!("format {fmt} with {extra} extra bytes does not round trip"));
        }
    }
    Ok(())
}

pub fn chunktable(rng: &mut Rng) -> Res {
    let var = rng.chance(1, 2);
    let chunk = 1 + rng.below(100_000) as u32;
    let v = gen::vlr(gen::items_of(&[(LazItemType::Point10, 2)]), if var { None } else { Some(chunk) });
    let n = match rng.below(4) {
        0 => 0,
        1 => 1,
        2 => rng.below(20) as usize,
        _ => rng.below(3000) as usize,
    };
    let mut t = ChunkTable::with_capacity(n);
    let num = |rng: &mut Rng| -> u64 {
        match rng.below(6) {
            0 => 0,
            1 => u32::MAX as u64,
            2 => 0x8000_0000,
            3 => rng.below(1 << 32),
            _ => rng.below(100_000),
        }
    };
    for _ in 0..n {
        let e = ChunkTableEntry { point_count: num(rng), byte_count: num(rng) };
        t.push(e);
    }
    let prefix = rng.below(30);
    let body = rng.below(60);
    let at_end = rng.chance(1, 3);
    let mut f = Cursor::new(vec![0x5au8; (prefix + 8 + body) as usize]);
    let table = prefix + 8 + body;
    f.seek(SeekFrom::Start(table)).unwrap();
    t.write_to(&mut f, &v).map_err(|e| e.to_string())?;
    let mut f = f.into_inner();
    let off: i64 = if at_end { *rng.pick(&[-1i64, 0, i64::MIN, prefix as i64]) } else { table as i64 };
    f[prefix as usize..prefix as usize + 8].copy_from_slice(&off.to_le_bytes());
    if at_end {
        f.extend_from_slice(&(table as i64).to_le_bytes());
    } else if rng.chance(1, 2) {
        f.extend_from_slice(&rng.next().to_le_bytes());
    }
    let mut c = Cursor::new(f);
    c.set_position(prefix);
    let r = ChunkTable::read_from(&mut c, &v).map_err(|e| format!("reading back {n} entries: {e}"))?;
    if c.position() != prefix + 8 {
        return Err(format!("source left at {}, first point is at {}", c.position(), prefix + 8));
    }
    if r.len() != n || r.is_empty() != (n == 0) {
        return Err(format!("{} entries read, {n} written", r.len()));
    }
    for (i, (a, b)) in t.as_ref().iter().zip(r.as_ref()).enumerate() {
        let pc = if var { a.point_count } else { chunk as u64 };
        if b.byte_count != a.byte_count || b.point_count != pc {
            return Err(format!("variable {var}: entry {i} written {a:?} read {b:?}"));
        }
    }
    Ok(())
}

fn check<T: Packable>(rng: &mut Rng, what: &str, size: usize) -> Res {
    let len = size + rng.below(3) as usize;
    let b: Vec<u8> = (0..len).map(|_| if rng.chance(1, 4) { *rng.pick(&[0, 255, 128, 127]) } else { rng.next() as u8 }).collect();
    let v = T::unpack_from(&b);
    let mut out = vec![0xA7u8; len];
    v.pack_into(&mut out);
    if out[..size] != b[..size] {
        return Err(format!("{what}: {b:02x?} packed as {out:02x?}"));
    }
    if out[size..].iter().any(|x| *x != 0xA7) {
        return Err(format!("{what}: bytes beyond the value were written"));
    }
    let mut out2 = vec![0u8; len];
    unsafe { T::unpack_from_unchecked(&b).pack_into_unchecked(&mut out2) };
    if out2[..size] != b[..size] {
        return Err(format!("{what}: unchecked {b:02x?} packed as {out2:02x?}"));
    }
    // short slices panic
    let cut = rng.below(size as u64) as usize;
    let short = b[..cut].to_vec();
    if std::panic::catch_unwind(|| T::unpack_from(&short)).is_ok() {
        return Err(format!("{what}: unpacking {cut} bytes does not panic"));
    }
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || v.pack_into(&mut vec![0u8; cut]))).is_ok() {
        return Err(format!("{what}: packing into {cut} bytes does not panic"));
    }
    Ok(())
}

pub fn pack(rng: &mut Rng) -> Res {
    use laz::las::point6::LasPoint6;
    use laz::las::{gps::GpsTime, rgb::RGB, wavepacket::LasWavepacket, Point0, Point6};
    check::<u8>(rng, "u8", 1)?;
    check::<i8>(rng, "i8", 1)?;
    check::<u16>(rng, "u16", 2)?;
    check::<i16>(rng, "i16", 2)?;
    check::<u32>(rng, "u32", 4)?;
    check::<i32>(rng, "i32", 4)?;
    check::<f32>(rng, "f32", 4)?;
    check::<u64>(rng, "u64", 8)?;
    check::<GpsTime>(rng, "GpsTime", 8)?;
    check::<RGB>(rng, "RGB", 6)?;
    check::<LasWavepacket>(rng, "LasWavepacket", 29)?;
    check::<Point0>(rng, "Point0", 20)?;
    check::<Point6>(rng, "Point6", 30)?;
    // field positions
    let b: Vec<u8> = (0..30).map(|_| rng.next() as u8).collect();
    let i32at = |o: usize| i32::from_le_bytes(b[o..o + 4].try_into().unwrap());
    let u16at = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap());
    let p = Point0::unpack_from(&b);
    let ok = p.x == i32at(0) && p.y == i32at(4) && p.z == i32at(8) && p.intensity == u16at(12)
        && p.return_number == b[14] & 7 && p.number_of_returns_of_given_pulse == b[14] >> 3 & 7
        && p.scan_direction_flag == (b[14] >> 6 & 1 == 1) && p.edge_of_flight_line == (b[14] >> 7 == 1)
        && p.classification == b[15] && p.scan_angle_rank == b[16] as i8 && p.user_data == b[17] && p.point_source_id == u16at(18);
    if !ok {
        return Err(format!("Point0 fields of {b:02x?}: {p:?}"));
    }
    let mut p = Point6::unpack_from(&b);
    let fields = |p: &Point6| -> Vec<u64> {
        vec![
            p.x() as u32 as u64, p.y() as u32 as u64, p.z() as u32 as u64, p.intensity() as u64, p.return_number() as u64,
            p.number_of_returns_of_given_pulse() as u64, p.classification_flags() as u64, p.scanner_channel() as u64,
            p.scan_direction_flag() as u64, p.edge_of_flight_line() as u64, p.classification() as u64, p.user_data() as u64,
            p.scan_angle_rank() as u16 as u64, p.point_source_id() as u64, p.gps_time().to_bits(),
        ]
    };
    let want = vec![
        i32at(0) as u32 as u64, i32at(4) as u32 as u64, i32at(8) as u32 as u64, u16at(12) as u64, (b[14] & 15) as u64, (b[14] >> 4) as u64,
        (b[15] & 15) as u64, (b[15] >> 4 & 3) as u64, (b[15] >> 6 & 1) as u64, (b[15] >> 7) as u64, b[16] as u64, b[17] as u64,
        u16at(18) as u64, u16at(20) as u64, u64::from_le_bytes(b[22..30].try_into().unwrap()),
    ];
    if fields(&p) != want {
        return Err(format!("Point6 fields of {b:02x?}: {:x?}, expected {want:x?}", fields(&p)));
    }
    // setting a bit field leaves the others alone
    let v = rng.next() as u8;
    let mut w = want.clone();
    match rng.below(3) {
        0 => { p.set_return_number(v & 15); w[4] = (v & 15) as u64 }
        1 => { p.set_number_of_returns(v & 15); w[5] = (v & 15) as u64 }
        _ => { p.set_scanner_channel(v & 3); w[7] = (v & 3) as u64 }
    }
    if fields(&p) != w {
        return Err(format!("Point6 bit fields after a set: {:x?}, expected {w:x?}", fields(&p)));
    }
    let r = RGB::unpack_from(&b);
    if r.red != u16at(0) || r.green != u16at(2) || r.blue != u16at(4) {
        return Err(format!("RGB of {b:02x?}: {r:?}"));
    }
    Ok(())
}

pub fn slices(rng: &mut Rng) -> Res {
    use byteslice::{ChunksIrregular, ChunksIrregularMut};
    let n = rng.below(50) as usize;
    let mut sizes = vec![];
    let mut left = n;
    while left > 0 && !rng.chance(1, 9) {
        let k = rng.below(left as u64 + 1).min(rng.below(12)) as usize;
        sizes.push(k);
        left -= k;
    }
    let data: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let mut off = 0;
    let mut it = ChunksIrregular::new(&data, sizes.clone());
    for (i, k) in sizes.iter().enumerate() {
        let Some(s) = it.next() else { return Err(format!("{sizes:?} of {n}: stopped before piece {i}")) };
        if s != &data[off..off + k] || (*k > 0 && s.as_ptr() != data[off..].as_ptr()) {
            return Err(format!("{sizes:?} of {n}: piece {i} is {s:?}"));
        }
        off += k;
    }
    if it.next().is_some() {
        return Err(format!("{sizes:?} of {n}: more pieces than sizes"));
    }
    let mut m = data.clone();
    let base = m.as_ptr();
    let mut off = 0;
    {
        let mut it = ChunksIrregularMut::new(&mut m, sizes.clone());
        for (i, k) in sizes.iter().enumerate() {
            let Some(s) = it.next() else { return Err(format!("mut {sizes:?} of {n}: stopped before piece {i}")) };
            if s != &data[off..off + k] || (*k > 0 && s.as_ptr() != base.wrapping_add(off)) {
                return Err(format!("mut {sizes:?} of {n}: piece {i} is {s:?}"));
            }
            s.fill(0xF0 ^ i as u8);
            off += k;
        }
        if it.next().is_some() {
            return Err(format!("mut {sizes:?} of {n}: more pieces than sizes"));
        }
    }
    let mut want = data.clone();
    let mut off = 0;
    for (i, k) in sizes.iter().enumerate() {
        want[off..off + k].fill(0xF0 ^ i as u8);
        off += k;
    }
    if m != want {
        return Err(format!("mut {sizes:?} of {n}: writes landed elsewhere"));
    }
    let too = left + 1 + rng.below(5) as usize;
    let mut s2 = sizes.clone();
    s2.push(too);
    if std::panic::catch_unwind(|| ChunksIrregular::new(&data, s2.clone()).count()).is_ok() {
        return Err(format!("{s2:?} of {n}: a size that does not fit gave no panic"));
    }
    let mut m2 = data.clone();
    if std::panic::catch_unwind(move || ChunksIrregularMut::new(&mut m2, s2).count()).is_ok() {
        return Err(format!("mut of {n}: a size that does not fit gave no panic"));
    }
    Ok(())
}
