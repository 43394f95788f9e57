//! Child of `las::utils`: the inside of a streaming median.
use super::*;
use crate::verif_ghost as g;

pub type Med = ([i32; 5], bool);
pub fn set(m: &mut StreamingMedian<i32>, v: &Med) {
    m.values = v.0;
    m.high = v.1;
}
pub fn get(m: &StreamingMedian<i32>) -> Med {
    (m.values, m.high)
}

/// `add` as any function of median and value: both sides of a codec call it alike (asserted by the
/// comparison of their states), what it computes does not matter to the round trip.
static mut ADDED: ([(Med, i32, Med); 2], usize) = ([(([0; 5], false), 0, ([0; 5], false)); 2], 0);
fn eq(a: &Med, b: &Med) -> bool {
    (a.0[0] == b.0[0]) & (a.0[1] == b.0[1]) & (a.0[2] == b.0[2]) & (a.0[3] == b.0[3]) & (a.0[4] == b.0[4]) & (a.1 == b.1)
}
pub fn some_add<T: Zero + Copy + PartialOrd>(m: &mut StreamingMedian<T>, v: T) {
    unsafe {
        let m = &mut *(m as *mut StreamingMedian<T> as *mut StreamingMedian<i32>);
        let v: i32 = std::mem::transmute_copy(&v);
        let old = get(m);
        let mut r: Med = kani::any();
        let n = ADDED.1;
        if n > 0 && ADDED.0[0].1 == v && eq(&ADDED.0[0].0, &old) {
            r = ADDED.0[0].2;
        } else if n > 1 && ADDED.0[1].1 == v && eq(&ADDED.0[1].0, &old) {
            r = ADDED.0[1].2;
        } else if n < 2 {
            ADDED.0[n] = (old, v, r);
            ADDED.1 = n + 1;
        }
        set(m, &r);
    }
}

// ---- layers
/// `copy_bytes_into_decoder` for a layer of `n` bytes in a source that goes on after it.
fn copy_in(n: usize, requested: bool, seeks: bool) {
    g::restart();
    let mut d = ArithmeticDecoder::new(Cursor::new(Vec::<u8>::new()));
    let content: [u8; 6] = kani::any();
    let mut src = g::Bytes::new();
    src.b[..6].copy_from_slice(&content);
    src.n = 6;
    src.at = 1;
    src.seeks = seeks;
    let r = copy_bytes_into_decoder(requested, n, &mut d, &mut src);
    let loaded = requested && n > 0;
    assert!(matches!(r, Ok(x) if x == loaded), "the layer is decoded if wanted and there");
    assert!(src.at == 1 + n, "the source is behind the layer");
    unsafe { assert!(g::INIT[0] == loaded as u8, "the decoder starts on the layer") };
    if loaded {
        assert!(d.get_mut().position() == 0 && g::same(&d.get_mut().get_ref()[..], &content[1..1 + n]), "the bytes of the layer");
    }
    std::mem::forget(d);
}
/// A source of which only the position matters.
struct Counted {
    at: u64,
    seeks: bool,
}
impl Read for Counted {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.at += buf.len() as u64;
        Ok(buf.len())
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
        self.at += buf.len() as u64;
        Ok(())
    }
}
impl Seek for Counted {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        match to {
            SeekFrom::Current(d) if self.seeks => self.at = (self.at as i64 + d) as u64,
            SeekFrom::Start(d) if self.seeks => self.at = d,
            _ => return Err(std::io::ErrorKind::Unsupported.into()),
        }
        Ok(self.at)
    }
}
// a layer of any size that is not wanted
g::field_harness!(layer_skipped, 4, {
    g::restart();
    let mut d = ArithmeticDecoder::new(Cursor::new(Vec::<u8>::new()));
    let n: u32 = kani::any();
    let at: u32 = kani::any();
    let mut src = Counted { at: at as u64, seeks: kani::any() };
    assert!(matches!(copy_bytes_into_decoder(false, n as usize, &mut d, &mut src), Ok(false)), "a layer not wanted is not decoded");
    assert!(src.at == at as u64 + n as u64, "the source is behind the layer");
    unsafe { assert!(g::INIT[0] == 0) };
    kani::cover!(n > 1 << 20);
    std::mem::forget(d);
});
g::field_harness!(layer_in, 8, {
    let (t, f) = (true, false);
    copy_in(0, t, t);
    copy_in(0, f, f);
    copy_in(3, t, t);
    copy_in(3, t, f);
    copy_in(3, f, t);
    copy_in(3, f, f);
    copy_in(4, t, f);
    kani::cover!(true);
});
g::field_harness!(layer_out, 8, {
    let mut e = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::new()));
    let content: [u8; 3] = kani::any();
    e.get_mut().get_mut().extend_from_slice(&content);
    let mut sink = g::Bytes::new();
    assert!(inner_buffer_len_of(&e) == 3, "size of the layer");
    assert!(copy_encoder_content_to(&mut e, &mut sink).is_ok());
    assert!(sink.is(&content), "the bytes of the layer");
    kani::cover!(true);
    std::mem::forget(e);
});
