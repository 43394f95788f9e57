//! Deterministic generators of point records and configurations.
use laz::{LazItem, LazItemType, LazVlr, LazVlrBuilder};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

/// One of the ways in which a little-endian field changes between two records.
fn mutate_field(rng: &mut Rng, f: &mut [u8]) {
    let n = f.len();
    let mut v: u64 = 0;
    for (i, b) in f.iter().enumerate() {
        v |= (*b as u64) << (8 * i);
    }
    let bits = 8 * n as u32;
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let nv = match rng.below(16) {
        0 | 1 | 2 => v,
        3 => v.wrapping_add(1),
        4 => v.wrapping_sub(1),
        5 => v.wrapping_add(rng.below(256)),
        6 => v.wrapping_sub(rng.below(256)),
        7 => v.wrapping_add(rng.below(70000)).wrapping_sub(35000),
        8 => v ^ (1u64 << rng.below(bits as u64)),
        9 => 0,
        10 => mask,
        11 => 1u64 << (bits - 1),
        12 => (1u64 << (bits - 1)) - 1,
        13 => v.wrapping_add(1u64 << rng.below(bits as u64)),
        14 => v.wrapping_sub(1u64 << rng.below(bits as u64)),
        _ => rng.next(),
    } & mask;
    for (i, b) in f.iter_mut().enumerate() {
        *b = (nv >> (8 * i)) as u8;
    }
}

/// Byte layout of the fields of each item, used only to choose where to mutate.
pub fn layout(t: &LazItemType) -> Vec<usize> {
    match t {
        LazItemType::Byte(n) | LazItemType::Byte14(n) => vec![1; *n as usize],
        LazItemType::Point10 => vec![4, 4, 4, 2, 1, 1, 1, 1, 2],
        LazItemType::GpsTime => vec![8],
        LazItemType::RGB12 | LazItemType::RGB14 => vec![2, 2, 2],
        LazItemType::WavePacket13 | LazItemType::WavePacket14 => vec![1, 8, 4, 4, 4, 4, 4],
        LazItemType::Point14 => vec![4, 4, 4, 2, 1, 1, 1, 1, 2, 2, 8],
        LazItemType::RGBNIR14 => vec![2, 2, 2, 2],
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}

/// A style fixes how wild the record stream is, so that both smooth (realistic)
/// and adversarial streams are produced.
#[derive(Clone, Copy, Debug)]
pub enum Style {
    Smooth,
    Wild,
    Mixed,
    Repeat,
    /// every record the same: almost no bits per record
    Const,
    /// a short cycle of records: well predicted, yet neighbours differ
    Cycle,
}

struct SimState {
    t: f64,
    channel: u8,
    gps: [f64; 4],
}

pub fn points(rng: &mut Rng, items: &[LazItem], n: usize, style: Style) -> Vec<u8> {
    let size: usize = items.iter().map(|i| i.size() as usize).sum();
    let mut out = Vec::with_capacity(size * n);
    let mut cur: Vec<u8> = (0..size).map(|_| rng.next() as u8).collect();
    if rng.chance(1, 3) {
        for b in cur.iter_mut() {
            *b = 0;
        }
    }
    let period = 2 + rng.below(3) as usize;
    let mut st = SimState {
        t: 1000.0,
        channel: 0,
        gps: [rng.below(1 << 30) as f64; 4],
    };
    let base_dt = *rng.pick(&[1e-6, 1e-5, 0.5, 1.0]);
    for i in 0..n {
        if matches!(style, Style::Cycle) && i >= period {
            out.extend_from_within((i - period) * size..(i - period + 1) * size);
            continue;
        }
        let mode = match style {
            Style::Smooth => 0,
            Style::Wild => 1,
            Style::Const => 2,
            Style::Cycle => 1,
            Style::Repeat => {
                if rng.chance(1, 4) {
                    1
                } else {
                    2
                }
            }
            Style::Mixed => rng.below(3),
        };
        if i > 0 && mode != 2 {
            let mut off = 0usize;
            for it in items {
                for w in layout(&it.item_type()) {
                    let f = &mut cur[off..off + w];
                    off += w;
                    if mode == 1 {
                        if rng.chance(1, 2) {
                            mutate_field(rng, f);
                        }
                    } else if rng.chance(1, 3) {
                        // small signed step
                        let mut v: i64 = 0;
                        for (i, b) in f.iter().enumerate() {
                            v |= (*b as i64) << (8 * i);
                        }
                        v = v.wrapping_add(rng.below(21) as i64 - 10);
                        for (i, b) in f.iter_mut().enumerate() {
                            *b = (v >> (8 * i)) as u8;
                        }
                    }
                }
            }
        }
        // realistic returns, channels and gps time
        let mut off = 0usize;
        for it in items {
            let sz = it.size() as usize;
            match it.item_type() {
                LazItemType::Point14 => {
                    if mode == 0 {
                        let n_ret = 1 + rng.below(5) as u8;
                        let r = 1 + rng.below(n_ret as u64) as u8;
                        cur[off + 14] = r | (n_ret << 4);
                    }
                    if mode != 2 {
                        if rng.chance(1, 5) {
                            st.channel = rng.below(4) as u8;
                        }
                        let b = cur[off + 15];
                        cur[off + 15] = (b & 0xCF) | (st.channel << 4);
                        if mode == 0 || rng.chance(1, 2) {
                            let c = st.channel as usize;
                            st.gps[c] += gps_step(rng, base_dt);
                            st.t = st.gps[c];
                            cur[off + 22..off + 30].copy_from_slice(&st.t.to_le_bytes());
                        }
                    }
                }
                LazItemType::GpsTime => {
                    if mode == 0 || (mode == 1 && rng.chance(1, 2)) {
                        st.gps[0] += gps_step(rng, base_dt);
                        cur[off..off + 8].copy_from_slice(&st.gps[0].to_le_bytes());
                    }
                }
                LazItemType::WavePacket13 | LazItemType::WavePacket14 => {
                    if rng.chance(1, 2) && mode != 2 {
                        let mut o = u64::from_le_bytes(cur[off + 1..off + 9].try_into().unwrap());
                        let s = u32::from_le_bytes(cur[off + 9..off + 13].try_into().unwrap());
                        o = o.wrapping_add(s as u64);
                        cur[off + 1..off + 9].copy_from_slice(&o.to_le_bytes());
                    }
                }
                _ => {}
            }
            off += sz;
        }
        out.extend_from_slice(&cur);
    }
    out
}

fn gps_step(rng: &mut Rng, dt: f64) -> f64 {
    match rng.below(12) {
        0 | 1 => 0.0,
        2..=6 => dt,
        7 => dt * (rng.below(600) as f64),
        8 => -dt * (rng.below(600) as f64),
        9 => rng.below(100_000) as f64,
        10 => -(rng.below(100_000) as f64),
        _ => dt * 1.0000001,
    }
}

pub fn size_of_item(t: LazItemType) -> u16 {
    match t {
        LazItemType::Byte(n) | LazItemType::Byte14(n) => n,
        LazItemType::Point10 => 20,
        LazItemType::GpsTime => 8,
        LazItemType::RGB12 | LazItemType::RGB14 => 6,
        LazItemType::WavePacket13 | LazItemType::WavePacket14 => 29,
        LazItemType::Point14 => 30,
        LazItemType::RGBNIR14 => 8,
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}

pub fn code_of_item(t: LazItemType) -> u16 {
    match t {
        LazItemType::Byte(_) => 0,
        LazItemType::Point10 => 6,
        LazItemType::GpsTime => 7,
        LazItemType::RGB12 => 8,
        LazItemType::WavePacket13 => 9,
        LazItemType::Point14 => 10,
        LazItemType::RGB14 => 11,
        LazItemType::RGBNIR14 => 12,
        LazItemType::WavePacket14 => 13,
        LazItemType::Byte14(_) => 14,
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}

/// The bytes of a laszip VLR record, written from the format definition.
pub fn vlr_bytes(compressor: u16, chunk_size: u32, items: &[(LazItemType, u16)]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&compressor.to_le_bytes());
    b.extend_from_slice(&0u16.to_le_bytes());
    b.extend_from_slice(&[2, 2, 0, 0]);
    b.extend_from_slice(&0u32.to_le_bytes());
    b.extend_from_slice(&chunk_size.to_le_bytes());
    b.extend_from_slice(&(-1i64).to_le_bytes());
    b.extend_from_slice(&(-1i64).to_le_bytes());
    b.extend_from_slice(&(items.len() as u16).to_le_bytes());
    for (t, v) in items {
        b.extend_from_slice(&code_of_item(*t).to_le_bytes());
        b.extend_from_slice(&size_of_item(*t).to_le_bytes());
        b.extend_from_slice(&v.to_le_bytes());
    }
    b
}

pub fn items_of(items: &[(LazItemType, u16)]) -> Vec<LazItem> {
    LazVlr::read_from(&vlr_bytes(2, 1, items)[..])
        .unwrap()
        .items()
        .clone()
}

pub fn item(t: LazItemType, version: u16) -> LazItem {
    items_of(&[(t, version)])[0]
}

/// Versions at which an item type exists in both directions.
pub fn legacy_items(rng: &mut Rng, version: u16) -> Vec<LazItem> {
    let mut v = vec![item(LazItemType::Point10, version)];
    if rng.chance(1, 2) {
        v.push(item(LazItemType::GpsTime, version));
    }
    if rng.chance(1, 2) {
        v.push(item(LazItemType::RGB12, version));
    }
    if rng.chance(1, 3) {
        v.push(item(LazItemType::WavePacket13, version.min(2)));
    }
    if rng.chance(1, 2) {
        let n = 1 + rng.below(12) as u16;
        v.push(item(LazItemType::Byte(n), version));
    }
    v
}

pub fn layered_items(rng: &mut Rng, version: u16) -> Vec<LazItem> {
    let mut v = vec![item(LazItemType::Point14, version)];
    match rng.below(3) {
        0 => v.push(item(LazItemType::RGB14, version)),
        1 => v.push(item(LazItemType::RGBNIR14, version)),
        _ => {}
    }
    if rng.chance(1, 3) {
        v.push(item(LazItemType::WavePacket14, version));
    }
    if rng.chance(1, 2) {
        let n = 1 + rng.below(8) as u16;
        v.push(item(LazItemType::Byte14(n), version));
    }
    v
}

pub fn vlr(items: Vec<LazItem>, chunk_size: Option<u32>) -> LazVlr {
    let b = LazVlrBuilder::new(items);
    match chunk_size {
        Some(c) => b.with_fixed_chunk_size(c).build(),
        None => b.with_variable_chunk_size().build(),
    }
}
