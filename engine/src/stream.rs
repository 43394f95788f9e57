//! Chunked stream level: compressors, decompressors, seek, append, parallel entry points.
use crate::codec::{first_diff, style};
use crate::gen::{self, Rng};
use laz::laszip::{ChunkTable, LasZipAppender, LazCompressor, LazDecompressor};
use laz::{
    DecompressionSelection, LasZipCompressor, LasZipDecompressor, LazItem, LazVlr, ParLasZipAppender,
    ParLasZipCompressor, ParLasZipDecompressor,
};
use std::io::{Cursor, Read, Seek, SeekFrom};

type Res<T = ()> = Result<T, String>;

fn es<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> String {
    move |e| format!("{what}: {e}")
}

/// What one file holds: the records and how they were cut into chunks.
pub struct Plan {
    pub items: Vec<LazItem>,
    pub vlr: LazVlr,
    pub size: usize,
    pub pts: Vec<u8>,
    pub n: usize,
    pub chunk: Option<u32>,
    pub prefix: usize,
}

pub fn plan(rng: &mut Rng, min_n: usize) -> Plan {
    let items = if rng.chance(1, 2) {
        let v = 1 + rng.below(2) as u16;
        gen::legacy_items(rng, v)
    } else {
        let v = 3 + rng.below(2) as u16;
        gen::layered_items(rng, v)
    };
    let size: usize = items.iter().map(|i| i.size() as usize).sum();
    let n = min_n + match rng.below(6) {
        0 => rng.below(3) as usize,
        1..=3 => rng.below(40) as usize,
        _ => rng.below(200) as usize,
    };
    let chunk = if rng.chance(1, 2) {
        None
    } else {
        Some(1 + rng.below(*rng.0.clone().pick2(&[3, 10, 60, 3000])) as u32)
    };
    // many tiny chunks only cost time: a chunk builds all its models anew
    let n = match chunk {
        Some(c) => n.min(min_n.max(c as usize * (2 + rng.below(9) as usize)) + 1),
        None => n,
    };
    let (st, n) = if rng.chance(1, 5) { (*rng.pick(&[gen::Style::Const, gen::Style::Cycle]), n * (1 + rng.below(6)) as usize) } else { (style(rng), n) };
    let pts = gen::points(rng, &items, n, st);
    let vlr = gen::vlr(items.clone(), chunk);
    let prefix = rng.below(40) as usize;
    Plan { items, vlr, size, pts, n, chunk, prefix }
}

trait Pick2 {
    fn pick2<'a>(self, v: &'a [u64]) -> &'a u64;
}
impl Pick2 for u64 {
    fn pick2<'a>(self, v: &'a [u64]) -> &'a u64 {
        &v[(self % v.len() as u64) as usize]
    }
}

impl Plan {
    pub fn desc(&self) -> String {
        let it: Vec<String> = self.items.iter().map(|i| format!("{:?}v{}", i.item_type(), i.version())).collect();
        format!("items [{}] n {} chunk {:?} prefix {}", it.join(","), self.n, self.chunk, self.prefix)
    }
    pub fn layered(&self) -> bool {
        self.items[0].version() >= 3
    }
    /// Random variable-size partition of `n` points (no empty part unless `empties`)
    fn partition(&self, rng: &mut Rng, n: usize, empties: bool) -> Vec<usize> {
        let mut v = vec![];
        let mut left = n;
        let maxc = 1 + rng.below(n as u64 / 3 + 10) as usize;
        while left > 0 {
            if empties && rng.chance(1, 6) {
                v.push(0);
            }
            let k = (1 + rng.below(maxc as u64) as usize).min(left);
            v.push(k);
            left -= k;
        }
        v
    }
    fn fixed_counts(&self, n: usize) -> Vec<usize> {
        let c = self.chunk.unwrap() as usize;
        let mut v = vec![];
        let mut left = n;
        while left > 0 {
            v.push(left.min(c));
            left -= left.min(c);
        }
        v
    }
}

fn header(prefix: usize) -> Cursor<Vec<u8>> {
    let mut c = Cursor::new((0..prefix).map(|i| i as u8 ^ 0x5a).collect::<Vec<u8>>());
    c.seek(SeekFrom::End(0)).unwrap();
    c
}

fn feed(rng: &mut Rng, c: &mut LasZipCompressor<Cursor<Vec<u8>>>, pts: &[u8], size: usize) -> Res {
    let mut rest = pts;
    while !rest.is_empty() {
        let k = match rng.below(3) {
            0 => 1,
            _ => 1 + rng.below((rest.len() / size) as u64) as usize,
        };
        let (a, b) = rest.split_at(k * size);
        if k == 1 && rng.chance(1, 2) {
            c.compress_one(a).map_err(es("compress_one"))?;
        } else {
            c.compress_many(a).map_err(es("compress_many"))?;
        }
        rest = b;
    }
    Ok(())
}

/// Sequential compression; returns file and the chunk point counts it must hold.
fn write_seq(rng: &mut Rng, p: &Plan, empties: bool) -> Res<(Vec<u8>, Vec<usize>)> {
    let mut c = LasZipCompressor::new(header(p.prefix), p.vlr.clone()).map_err(es("new"))?;
    if rng.chance(1, 4) {
        c.reserve_offset_to_chunk_table().map_err(es("reserve"))?;
    }
    let counts;
    if p.chunk.is_some() {
        feed(rng, &mut c, &p.pts, p.size)?;
        counts = p.fixed_counts(p.n);
    } else {
        let parts = p.partition(rng, p.n, empties);
        let mut off = 0;
        let last = parts.len().saturating_sub(1);
        if rng.chance(1, 2) {
            for (i, k) in parts.iter().enumerate() {
                feed(rng, &mut c, &p.pts[off..off + k * p.size], p.size)?;
                off += k * p.size;
                if i != last || rng.chance(1, 2) {
                    c.finish_current_chunk().map_err(es("finish"))?;
                }
            }
        } else {
            let mut v = vec![];
            for k in &parts {
                v.push(&p.pts[off..off + k * p.size]);
                off += k * p.size;
            }
            c.compress_chunks(v).map_err(es("compress_chunks"))?;
        }
        counts = parts;
    }
    c.done().map_err(es("done"))?;
    Ok((c.into_inner().into_inner(), counts))
}

fn write_par(rng: &mut Rng, p: &Plan, empties: bool) -> Res<(Vec<u8>, Vec<usize>)> {
    let mut c = ParLasZipCompressor::new(header(p.prefix), p.vlr.clone()).map_err(es("par new"))?;
    let counts;
    if p.chunk.is_some() {
        let mut rest = &p.pts[..];
        while !rest.is_empty() {
            let k = 1 + rng.below((rest.len() / p.size) as u64) as usize;
            let (a, b) = rest.split_at(k * p.size);
            c.compress_many(a).map_err(es("par compress_many"))?;
            rest = b;
        }
        counts = p.fixed_counts(p.n);
    } else {
        let parts = p.partition(rng, p.n, empties);
        let mut off = 0;
        let mut i = 0;
        while i < parts.len() {
            let k = 1 + rng.below((parts.len() - i) as u64) as usize;
            let mut v = vec![];
            for q in &parts[i..i + k] {
                v.push(&p.pts[off..off + q * p.size]);
                off += q * p.size;
            }
            c.compress_chunks(v).map_err(es("par compress_chunks"))?;
            i += k;
        }
        counts = parts;
    }
    c.done().map_err(es("par done"))?;
    Ok((c.into_inner().into_inner(), counts))
}

fn open(p: &Plan, file: &[u8]) -> Cursor<Vec<u8>> {
    let mut c = Cursor::new(file.to_vec());
    c.set_position(p.prefix as u64);
    c
}

fn check_prefix(p: &Plan, file: &[u8]) -> Res {
    let h = header(p.prefix).into_inner();
    if !file.starts_with(&h) {
        return Err("bytes before the point data were modified".into());
    }
    Ok(())
}

/// The chunk table describes the file: counts, byte counts that tile the space up to the table.
fn check_table(p: &Plan, file: &[u8], counts: &[usize], n: usize) -> Res<ChunkTable> {
    let mut c = open(p, file);
    let t = ChunkTable::read_from(&mut c, &p.vlr).map_err(es("chunk table"))?;
    if c.position() != p.prefix as u64 + 8 {
        return Err(format!("source left at {} after reading the chunk table", c.position()));
    }
    let off = i64::from_le_bytes(file[p.prefix..p.prefix + 8].try_into().unwrap());
    let sum: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
    if p.prefix as u64 + 8 + sum != off as u64 {
        return Err(format!("byte counts {:?} sum {sum} do not reach the chunk table at {off} (start {})", t, p.prefix + 8));
    }
    if p.chunk.is_none() {
        let total: u64 = t.as_ref().iter().map(|e| e.point_count).sum();
        if total != n as u64 {
            return Err(format!("point counts sum to {total}, {n} points were written: {t:?}"));
        }
        let got: Vec<usize> = t.as_ref().iter().map(|e| e.point_count as usize).filter(|x| *x > 0).collect();
        let want: Vec<usize> = counts.iter().copied().filter(|x| *x > 0).collect();
        if got != want {
            return Err(format!("chunk point counts {got:?}, expected {want:?}"));
        }
    } else if n > 0 && t.len() != counts.len() {
        return Err(format!("{} chunks in the table, expected {}", t.len(), counts.len()));
    }
    Ok(t)
}

/// every chunk decodes on its own from exactly the bytes its entry names
fn check_chunks(p: &Plan, file: &[u8], t: &ChunkTable, counts: &[usize], pts: &[u8]) -> Res {
    let mut off = p.prefix + 8;
    let mut done = 0usize;
    let mut it = counts.iter().filter(|x| **x > 0);
    for e in t.as_ref() {
        if p.chunk.is_none() && e.point_count == 0 {
            off += e.byte_count as usize;
            continue;
        }
        let Some(k) = it.next() else { break };
        let bytes = &file[off..off + e.byte_count as usize];
        let want = &pts[done * p.size..(done + k) * p.size];
        let (got, _) = crate::codec::decompress_records(&p.items, bytes, *k, p.size, DecompressionSelection::all(), 0x11)
            .map_err(|e| format!("chunk at {off}: {e}"))?;
        if got != want {
            return Err(format!("chunk at byte {off} decodes differently: {}", first_diff(want, &got, p.size)));
        }
        off += e.byte_count as usize;
        done += k;
    }
    Ok(())
}

fn read_seq(rng: &mut Rng, p: &Plan, src: impl Read + Seek + Send + Sync, n: usize) -> Res<Vec<u8>> {
    let mut d = LasZipDecompressor::new(src, p.vlr.clone()).map_err(es("decompressor new"))?;
    let mut out = vec![0xEEu8; n * p.size];
    let mut i = 0;
    while i < n {
        let k = 1 + rng.below((n - i) as u64) as usize;
        let o = &mut out[i * p.size..(i + k) * p.size];
        if k == 1 {
            d.decompress_one(o).map_err(|e| format!("decompress_one point {i}: {e}"))?;
        } else {
            d.decompress_many(o).map_err(|e| format!("decompress_many from {i}: {e}"))?;
        }
        i += k;
    }
    Ok(out)
}

fn read_par(rng: &mut Rng, p: &Plan, file: &[u8], n: usize) -> Res<Vec<u8>> {
    let mut d = ParLasZipDecompressor::new(open(p, file), p.vlr.clone()).map_err(es("par decompressor new"))?;
    let mut out = vec![0xEEu8; n * p.size];
    let mut i = 0;
    while i < n {
        let k = 1 + rng.below((n - i) as u64) as usize;
        let o = &mut out[i * p.size..(i + k) * p.size];
        d.decompress_many(o).map_err(|e| format!("par decompress_many from {i}: {e}"))?;
        i += k;
    }
    Ok(out)
}

fn same(what: &str, p: &Plan, want: &[u8], got: &[u8]) -> Res {
    if want != got {
        return Err(format!("{what}: {}", first_diff(want, got, p.size)));
    }
    Ok(())
}

struct NoSeek<R>(R);
impl<R: Read> Read for NoSeek<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl<R> Seek for NoSeek<R> {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "not seekable"))
    }
}

fn wrap(p: &Plan, r: Res) -> Res {
    r.map_err(|e| format!("{e} [{}]", p.desc()))
}

/// chunked write then sequential read, table contents, missing table / unseekable source
pub fn stream(rng: &mut Rng) -> Res {
    let p = plan(rng, 0);
    let empties = rng.chance(1, 4);
    let r = (|| {
        let (file, counts) = write_seq(rng, &p, empties)?;
        check_prefix(&p, &file)?;
        let t = check_table(&p, &file, &counts, p.n)?;
        check_chunks(&p, &file, &t, &counts, &p.pts)?;
        if p.n > 0 {
            let out = read_seq(rng, &p, open(&p, &file), p.n)?;
            same("sequential read", &p, &p.pts, &out)?;
            // last 8 bytes mechanism: offset -1 in front, offset at the very end
            if rng.chance(1, 3) {
                let mut f2 = file.clone();
                let off = f2[p.prefix..p.prefix + 8].to_vec();
                f2[p.prefix..p.prefix + 8].copy_from_slice(&(-1i64).to_le_bytes());
                f2.extend_from_slice(&off);
                let out = read_seq(rng, &p, open(&p, &f2), p.n)?;
                same("read with the table offset at the end of the file", &p, &p.pts, &out)?;
            }
            if p.chunk.is_some() || p.layered() {
                let out = read_seq(rng, &p, NoSeek(open(&p, &file)), p.n).map_err(|e| format!("unseekable source: {e}"))?;
                same("unseekable source", &p, &p.pts, &out)?;
                // chunk table never written (writer did not finish)
                let off = i64::from_le_bytes(file[p.prefix..p.prefix + 8].try_into().unwrap()) as usize;
                let mut f3 = file[..off].to_vec();
                f3[p.prefix..p.prefix + 8].copy_from_slice(&(-1i64).to_le_bytes());
                f3.extend_from_slice(&[0u8; 16]);
                let out = read_seq(rng, &p, open(&p, &f3), p.n).map_err(|e| format!("no chunk table: {e}"))?;
                same("no chunk table", &p, &p.pts, &out)?;
            }
        }
        Ok(())
    })();
    wrap(&p, r)
}

/// sequential and parallel writers produce the same bytes; readers the same points
pub fn parallel(rng: &mut Rng) -> Res {
    let p = plan(rng, 0);
    let r = (|| {
        let empties = rng.chance(1, 4);
        let (pf, counts) = write_par(rng, &p, empties)?;
        check_prefix(&p, &pf)?;
        let t = check_table(&p, &pf, &counts, p.n)?;
        check_chunks(&p, &pf, &t, &counts, &p.pts)?;
        if p.n > 0 {
            let out = read_seq(rng, &p, open(&p, &pf), p.n)?;
            same("sequential read of parallel file", &p, &p.pts, &out)?;
            let out = read_par(rng, &p, &pf, p.n)?;
            same("parallel read of parallel file", &p, &p.pts, &out)?;
        }
        let (sf, _) = write_seq(rng, &p, false)?;
        if p.n > 0 {
            let out = read_par(rng, &p, &sf, p.n)?;
            same("parallel read of sequential file", &p, &p.pts, &out)?;
        }
        if p.chunk.is_some() && p.n > 0 {
            if pf != sf {
                return Err("parallel and sequential files differ".into());
            }
            let mut c = header(p.prefix);
            laz::laszip::parallel::par_compress_buffer(&mut c, &p.pts, &p.vlr).map_err(es("par_compress_buffer"))?;
            if c.get_ref() != &sf {
                return Err("par_compress_buffer file differs".into());
            }
            let mut c = header(p.prefix);
            laz::compress_buffer(&mut c, &p.pts, p.vlr.clone()).map_err(es("compress_buffer"))?;
            if c.get_ref() != &sf {
                return Err("compress_buffer file differs".into());
            }
        }
        // whole buffer functions need offset 0
        if p.prefix == 0 || p.n > 0 {
            let q = Plan { prefix: 0, items: p.items.clone(), vlr: p.vlr.clone(), pts: p.pts.clone(), ..p };
            let (f, _) = write_seq(rng, &q, false)?;
            let mut out = vec![0x77u8; q.n * q.size];
            laz::decompress_buffer(&f, &mut out, q.vlr.clone()).map_err(es("decompress_buffer"))?;
            same("decompress_buffer", &q, &q.pts, &out)?;
            let mut out = vec![0x77u8; q.n * q.size];
            laz::laszip::parallel::par_decompress_buffer(&f, &mut out, &q.vlr).map_err(es("par_decompress_buffer"))?;
            same("par_decompress_buffer", &q, &q.pts, &out)?;
        }
        Ok(())
    })();
    wrap(&p, r)
}

fn seek_with<D: LazDecompressor>(rng: &mut Rng, p: &Plan, d: &mut D, what: &str, want: &[u8]) -> Res {
    for step in 0..6 {
        if p.n == 0 || rng.chance(1, 8) {
            // beyond every chunk: reading must fail
            // an index in the part of the last fixed-size chunk that was never filled is for the
            // caller to avoid: the chunk table does not tell where that chunk ends
            let past = match p.chunk {
                Some(c) => (p.n as u64).div_ceil(c as u64).max(1) * c as u64,
                None => p.n as u64,
            };
            let idx = past + rng.below(1000) * rng.below(2);
            d.seek(idx).map_err(|e| format!("{what} step {step} seek({idx}) beyond the end: {e}"))?;
            let mut one = vec![0u8; p.size];
            if d.decompress_one(&mut one).is_ok() {
                return Err(format!("{what} step {step}: point {idx} of {} could be read", p.n));
            }
            if p.n == 0 {
                return Ok(());
            }
            continue;
        }
        let mut idx = rng.below(p.n as u64) as usize;
        if rng.chance(1, 3) {
            // the last points may need no further compressed byte
            idx = p.n - 1 - rng.below(p.n.min(12) as u64) as usize;
        }
        if rng.chance(1, 3) {
            if let Some(c) = p.chunk {
                idx = idx / c as usize * c as usize; // chunk border
            }
        }
        d.seek(idx as u64).map_err(|e| format!("{what} step {step} seek({idx}): {e}"))?;
        let k = 1 + rng.below(((p.n - idx) as u64).min(80)) as usize;
        let mut out = vec![0x33u8; k * p.size];
        if rng.chance(1, 2) {
            d.decompress_many(&mut out).map_err(|e| format!("{what} step {step} read {k} at {idx}: {e}"))?;
        } else {
            for (i, o) in out.chunks_exact_mut(p.size).enumerate() {
                d.decompress_one(o).map_err(|e| format!("{what} step {step} read one {i}th at {idx}: {e}"))?;
            }
        }
        same(&format!("{what} step {step} seek({idx}) read {k}"), p, &want[idx * p.size..(idx + k) * p.size], &out)?;
    }
    Ok(())
}

pub fn seek(rng: &mut Rng) -> Res {
    let p = plan(rng, 1);
    let r = (|| {
        let (file, counts) = if rng.chance(1, 2) { write_seq(rng, &p, false)? } else { write_par(rng, &p, false)? };
        let sel = if rng.chance(1, 2) { DecompressionSelection::all() } else { crate::sel::selection(rng) };
        let want = crate::sel::expected(&p.items, &p.pts, p.size, &counts, sel);
        let mut d = LasZipDecompressor::selective(open(&p, &file), p.vlr.clone(), sel).map_err(es("new"))?;
        seek_with(rng, &p, &mut d, "seq", &want)?;
        Ok(())
    })();
    wrap(&p, r)
}

pub fn seekpar(rng: &mut Rng) -> Res {
    let p = plan(rng, 1);
    let r = (|| {
        let (file, counts) = if rng.chance(1, 2) { write_seq(rng, &p, false)? } else { write_par(rng, &p, false)? };
        let sel = if rng.chance(1, 2) { DecompressionSelection::all() } else { crate::sel::selection(rng) };
        let want = crate::sel::expected(&p.items, &p.pts, p.size, &counts, sel);
        let mut d = ParLasZipDecompressor::selective(open(&p, &file), p.vlr.clone(), sel).map_err(es("new"))?;
        seek_with(rng, &p, &mut d, "par", &want)?;
        Ok(())
    })();
    wrap(&p, r)
}

pub fn append(rng: &mut Rng) -> Res {
    let p = plan(rng, 0);
    let r = (|| {
        let (mut file, _) = if rng.chance(1, 2) { write_seq(rng, &p, false)? } else { write_par(rng, &p, false)? };
        let mut all = p.pts.clone();
        let mut counts_known = p.chunk.is_some();
        for round in 0..1 + rng.below(3) {
            let have = all.len() / p.size;
            let keep = if rng.chance(3, 4) { have } else { rng.below(have as u64 + 1) as usize };
            let m = rng.below(60) as usize;
            let st = style(rng);
            let new = gen::points(rng, &p.items, m, st);
            let par = rng.chance(1, 2);
            let ctx = format!("round {round} par {par} have {have} keep {keep} add {m}");
            if par {
                let mut a = ParLasZipAppender::new(open(&p, &file), p.vlr.clone(), keep as u64)
                    .map_err(|e| format!("{ctx}: appender new: {e}"))?;
                let mut rest = &new[..];
                while !rest.is_empty() {
                    let k = 1 + rng.below((rest.len() / p.size) as u64) as usize;
                    let (x, y) = rest.split_at(k * p.size);
                    if p.chunk.is_some() {
                        a.compress_many(x).map_err(|e| format!("{ctx}: {e}"))?;
                    } else {
                        a.compress_chunks(vec![x]).map_err(|e| format!("{ctx}: {e}"))?;
                    }
                    rest = y;
                }
                a.done().map_err(|e| format!("{ctx}: done {e}"))?;
                file = a.into_inner().into_inner();
            } else {
                let mut a = LasZipAppender::new(open(&p, &file), p.vlr.clone(), keep as u64)
                    .map_err(|e| format!("{ctx}: appender new: {e}"))?;
                let mut rest = &new[..];
                while !rest.is_empty() {
                    let k = 1 + rng.below((rest.len() / p.size) as u64) as usize;
                    let (x, y) = rest.split_at(k * p.size);
                    if p.chunk.is_none() && rng.chance(1, 2) {
                        a.compress_chunks(vec![x]).map_err(|e| format!("{ctx}: {e}"))?;
                    } else {
                        a.compress_many(x).map_err(|e| format!("{ctx}: {e}"))?;
                    }
                    rest = y;
                }
                a.done().map_err(|e| format!("{ctx}: done {e}"))?;
                file = a.into_inner().into_inner();
            }
            all.truncate(keep * p.size);
            all.extend_from_slice(&new);
            let n = all.len() / p.size;
            check_prefix(&p, &file)?;
            if n == 0 {
                continue;
            }
            let out = read_seq(rng, &p, open(&p, &file), n).map_err(|e| format!("{ctx}: {e}"))?;
            same(&format!("{ctx}: sequential read after append"), &p, &all, &out)?;
            let out = read_par(rng, &p, &file, n).map_err(|e| format!("{ctx}: {e}"))?;
            same(&format!("{ctx}: parallel read after append"), &p, &all, &out)?;
            if counts_known {
                let c = p.fixed_counts(n);
                let t = check_table(&p, &file, &c, n).map_err(|e| format!("{ctx}: {e}"))?;
                check_chunks(&p, &file, &t, &c, &all).map_err(|e| format!("{ctx}: {e}"))?;
            } else {
                let mut cur = open(&p, &file);
                let t = ChunkTable::read_from(&mut cur, &p.vlr).map_err(es("chunk table"))?;
                let counts: Vec<usize> = t.as_ref().iter().map(|e| e.point_count as usize).collect();
                check_table(&p, &file, &counts, n).map_err(|e| format!("{ctx}: {e}"))?;
                check_chunks(&p, &file, &t, &counts, &all).map_err(|e| format!("{ctx}: {e}"))?;
            }
            counts_known = p.chunk.is_some();
        }
        Ok(())
    })();
    wrap(&p, r)
}

#[allow(dead_code)]
fn _t<C: LazCompressor>(_: C) {}
