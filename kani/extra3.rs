//! Child of `las::extra_bytes::v3_v4`: two bytes, each with its layer.
use super::*;
use crate::verif_ghost as g;

pub const N: usize = g::FEW;
g::layered_state!([u8; N], [0; N]);

pub fn newc<const V: usize>(ctx: usize) -> LasExtraByteCompressorImpl<V> {
    let mut c = LasExtraByteCompressorImpl::<V>::new(N);
    g::uniform();
    c.contexts.only(ctx);
    let mut i = 0;
    while i < N {
        c.encoders[i].set_lane(i as u32);
        i += 1;
    }
    c
}
pub fn newd<const V: usize>(ctx: usize) -> LasExtraByteDecompressorImpl<V> {
    let mut c = LasExtraByteDecompressorImpl::<V>::new(N);
    g::uniform();
    c.contexts.only(ctx);
    let mut i = 0;
    while i < N {
        c.decoders[i].set_lane(i as u32);
        i += 1;
    }
    c
}
fn context(t: &mut g::Table<ExtraBytesContext>, s: &St, ctx: usize) {
    g::set_used(&s.used);
    t.only(ctx);
    t.entry.unused = !s.used[ctx];
    if s.used[ctx] {
        let mut i = 0;
        while i < N {
            g::tag(&mut t.entry.models[i], 1 + i as u32);
            i += 1;
        }
    }
}
fn fill(l: &mut Vec<ExtraBytes>, s: &St) {
    let mut i = 0;
    while i < 4 {
        l[i].bytes.copy_from_slice(&s.last[i]);
        i += 1;
    }
}
fn lasts(l: &Vec<ExtraBytes>) -> [[u8; N]; 4] {
    let mut r = [[0; N]; 4];
    let mut i = 0;
    while i < 4 {
        r[i].copy_from_slice(&l[i].bytes);
        i += 1;
    }
    r
}
pub fn comp<const V: usize>(s: &St, ctx: usize) -> LasExtraByteCompressorImpl<V> {
    let mut c = newc::<V>(ctx);
    context(&mut c.contexts, s, ctx);
    fill(&mut c.last_bytes, s);
    c.last_context_used = s.ctx;
    c
}
pub fn comp_st<const V: usize>(c: &LasExtraByteCompressorImpl<V>) -> St {
    St { ctx: c.last_context_used, used: g::used_of(&c.contexts, |x| !x.unused), last: lasts(&c.last_bytes), changed: false }.clean()
}
pub fn deco<const V: usize>(s: &St, ctx: usize, load: &[bool; N]) -> LasExtraByteDecompressorImpl<V> {
    let mut d = newd::<V>(ctx);
    context(&mut d.contexts, s, ctx);
    fill(&mut d.last_bytes, s);
    d.last_context_used = s.ctx;
    d.should_load_bytes.copy_from_slice(load);
    d
}
pub fn deco_st<const V: usize>(d: &LasExtraByteDecompressorImpl<V>) -> St {
    St { ctx: d.last_context_used, used: g::used_of(&d.contexts, |x| !x.unused), last: lasts(&d.last_bytes), changed: false }.clean()
}
fn step<const V: usize>() {
    let s = St::any();
    kani::assume(s.ok());
    let ctx = g::any_context();
    let changed: [bool; N] = kani::any();
    let load: [bool; N] = kani::any();
    let mut c = comp::<V>(&s, ctx);
    c.has_byte_changed.copy_from_slice(&changed);
    // what the layers not loaded stand at is no concern of the others
    let mut s2 = s;
    let mut i = 0;
    while i < N {
        if !load[i] && changed[i] {
            let mut k = 0;
            while k < 4 {
                s2.last[k][i] = kani::any();
                k += 1;
            }
        }
        i += 1;
    }
    let s2 = s2.clean();
    let mut d = deco::<V>(&s2, ctx, &load);
    let (mut cc, mut dc) = (ctx, ctx);
    let rec: [u8; N] = kani::any();
    let mut out: [u8; N] = kani::any();
    assert!(LayeredFieldCompressor::<g::Bytes>::compress_field_with(&mut c, &rec, &mut cc).is_ok());
    assert!(LayeredFieldDecompressor::<g::Bytes>::decompress_field_with(&mut d, &mut out, &mut dc).is_ok());
    assert!(cc == ctx && dc == ctx, "the context is the point's to choose");
    let (t, u) = (comp_st(&c), deco_st(&d));
    assert!(t.ok() && t.ctx == u.ctx && t.used == u.used, "both sides end in corresponding contexts");
    i = 0;
    while i < N {
        let now = c.has_byte_changed[i];
        assert!(now || !changed[i], "a layer that has changed stays so");
        if load[i] || !now {
            assert!(out[i] == rec[i], "byte of a layer that is loaded, or did not change");
            let mut k = 0;
            while k < 4 {
                assert!(t.last[k][i] == u.last[k][i], "both sides end in corresponding states");
                k += 1;
            }
        }
        if load[i] {
            assert!(g::unread(i) == 0, "all of the layer is read");
        }
        i += 1;
    }
    kani::cover!(g::written(0) == 1 && g::written(1) == 1 && load[0] && !load[1] && out[1] != rec[1]);
    std::mem::forget((c, d));
}
fn unselected<const V: usize>() {
    let mut s = St::any();
    let load: [bool; N] = kani::any();
    // nothing changed the bytes not loaded since the first record
    kani::assume(s.ok());
    let first = s.last[s.ctx];
    let mut k = 0;
    while k < 4 {
        let mut i = 0;
        while i < N {
            if !load[i] {
                s.last[k][i] = first[i];
            }
            i += 1;
        }
        k += 1;
    }
    let s = s.clean();
    let mut ctx = g::any_context();
    let mut d = deco::<V>(&s, ctx, &load);
    let mut i = 0;
    while i < N {
        // some value in every layer
        g::put(i as u32, g::Ev { kind: g::SYM, id: d.contexts.entry.models[i].total_count, ctx: 256, a: kani::any::<u8>() as u64, b: 0 });
        i += 1;
    }
    let mut out: [u8; N] = kani::any();
    // a context that starts has other models than that of the layer; it is of no interest here
    kani::assume(s.used[ctx]);
    assert!(LayeredFieldDecompressor::<g::Bytes>::decompress_field_with(&mut d, &mut out, &mut ctx).is_ok());
    let t = deco_st(&d);
    i = 0;
    while i < N {
        if !load[i] {
            assert!(out[i] == first[i], "a byte not selected keeps its first value");
            let mut k = 0;
            while k < 4 {
                assert!(!t.used[k] || t.last[k][i] == first[i], "every context keeps the first value");
                k += 1;
            }
        }
        i += 1;
    }
    kani::cover!(load[0] && !load[1]);
    std::mem::forget(d);
}
fn begin<const V: usize>() {
    let ctx = g::any_context();
    let (mut c, mut d) = (newc::<V>(ctx), newd::<V>(ctx));
    let (mut cc, mut dc) = (ctx, ctx);
    let rec: [u8; N] = kani::any();
    let mut out: [u8; N] = kani::any();
    let mut sink = g::Bytes::new();
    assert!(c.init_first_point(&mut sink, &rec, &mut cc).is_ok());
    assert!(sink.is(&rec), "first record is stored as it is");
    assert!(d.init_first_point(&mut sink, &mut out, &mut dc).is_ok());
    assert!(g::same(&out, &rec) && sink.at == N && cc == ctx && dc == ctx);
    let t = comp_st(&c);
    assert!(t.is(&deco_st(&d)) && t.ok() && t.ctx == ctx && !c.has_byte_changed[0] && !c.has_byte_changed[1]);
    let l = t.last[ctx];
    assert!(g::same(&l, &rec), "the first record is the prediction");
    assert!(LayeredFieldCompressor::<g::Bytes>::size_of_field(&c) == N && LayeredFieldDecompressor::<g::Bytes>::size_of_field(&d) == N);
    kani::cover!(true);
    std::mem::forget((c, d));
}
fn layer<const V: usize>(changed: [bool; N], wanted: [bool; N]) {
    g::restart();
    let (mut c, mut d) = (newc::<V>(0), newd::<V>(0));
    c.has_byte_changed.copy_from_slice(&changed);
    d.is_requested.copy_from_slice(&wanted);
    let mut sink = g::Bytes::new();
    let mut n = 4 * N;
    let mut i = 0;
    while i < N {
        g::any_content(i as u32);
        if changed[i] {
            n += g::CONTENT_LEN;
        }
        i += 1;
    }
    assert!(c.write_layers_sizes(&mut sink).is_ok());
    assert!(c.write_layers(&mut sink).is_ok());
    assert!(sink.n == n, "sizes and bytes of the layers");
    assert!(d.read_layers_sizes(&mut sink).is_ok());
    assert!(d.read_layers(&mut sink).is_ok());
    assert!(sink.at == sink.n, "layers are read or skipped, no more and no less");
    i = 0;
    while i < N {
        let w = changed[i] && wanted[i];
        assert!(d.should_load_bytes[i] == w, "selected layers with data are decoded");
        g::layer_loaded(i, w);
        i += 1;
    }
    std::mem::forget((c, d));
}
fn layers<const V: usize>() {
    let (t, f) = (true, false);
    layer::<V>([t, t], [t, f]);
    layer::<V>([f, t], [t, t]);
    layer::<V>([t, f], [f, t]);
    let mut d = newd::<V>(0);
    assert!(d.is_requested[0] && d.is_requested[1], "everything is decoded unless told otherwise");
    d.is_requested[0] = kani::any();
    let sel: u32 = kani::any();
    LayeredFieldDecompressor::<g::Bytes>::set_selection(&mut d, DecompressionSelection(sel));
    assert!(d.is_requested[0] == (sel & (1 << 11) != 0) && d.is_requested[1] == d.is_requested[0], "the layers are decoded if selected");
    kani::cover!(d.is_requested[0]);
    kani::cover!(!d.is_requested[0]);
    std::mem::forget(d);
}
g::field_harness!(step3, 6, { step::<3>() });
g::field_harness!(step4, 6, { step::<4>() });
g::field_harness!(unselected3, 6, { unselected::<3>() });
g::field_harness!(unselected4, 6, { unselected::<4>() });
g::field_harness!(first3, 10, { begin::<3>() });
g::field_harness!(first4, 10, { begin::<4>() });
g::layer_harness!(layers3, 10, { layers::<3>() });
g::layer_harness!(layers4, 10, { layers::<4>() });
