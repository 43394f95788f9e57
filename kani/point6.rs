//! Child of `las::point6::v3_v4`: one record from every pair of corresponding states.
use super::*;
use crate::verif_ghost as g;
use g::light::utils::Med;

type Src = g::Bytes;
const SIZE: usize = Point6::SIZE;
/// Layers after the first (lane 0: channel, returns, x, y), which are decoded only if wanted.
const FIELDS: usize = 8;
type Flags = [bool; FIELDS];
const Z: usize = 0;
const GPS: usize = 7;

// ---------------------------------------------------------------- states
#[derive(Clone, Copy)]
pub struct Seq {
    pub last: usize,
    pub next: usize,
    pub times: [i64; 4],
    pub diffs: [i32; 4],
    pub extreme: [i32; 4],
}
impl Seq {
    fn any() -> Seq {
        Seq { last: kani::any(), next: kani::any(), times: kani::any(), diffs: kani::any(), extreme: kani::any() }
    }
    fn ok(&self) -> bool {
        self.last < 4 && self.next < 4 && self.extreme[0] >= 0 && self.extreme[0] <= 3 && self.extreme[1] >= 0 && self.extreme[1] <= 3
            && self.extreme[2] >= 0 && self.extreme[2] <= 3 && self.extreme[3] >= 0 && self.extreme[3] <= 3
    }
    fn is(&self, o: &Seq) -> bool {
        let mut r = (self.last == o.last) & (self.next == o.next);
        let mut i = 0;
        while i < 4 {
            r = r & (self.times[i] == o.times[i]) & (self.diffs[i] == o.diffs[i]) & (self.extreme[i] == o.extreme[i]);
            i += 1;
        }
        r
    }
    fn of(c: &GpsTimeSequences) -> Seq {
        let t = &c.last_gps_times;
        Seq { last: c.last, next: c.next, times: [t[0].value, t[1].value, t[2].value, t[3].value], diffs: c.last_gps_diffs, extreme: c.multi_extreme_counter }
    }
    fn put(&self, c: &mut GpsTimeSequences) {
        c.last = self.last;
        c.next = self.next;
        let mut i = 0;
        while i < 4 {
            c.last_gps_times[i].value = self.times[i];
            i += 1;
        }
        c.last_gps_diffs = self.diffs;
        c.multi_extreme_counter = self.extreme;
    }
}
/// What the context of one scanner channel remembers; of the tables, the entry the record uses.
#[derive(Clone, Copy)]
pub struct Cx {
    last: Point6,
    intensity: [u16; 8],
    z: [i32; 8],
    x: Med,
    y: Med,
    gps: Seq,
}
fn any_point() -> Point6 {
    let b: [u8; SIZE] = kani::any();
    let mut p = Point6::unpack_from(&b);
    p.gps_time_change = kani::any();
    p
}
impl Cx {
    fn any() -> Cx {
        Cx { last: any_point(), intensity: kani::any(), z: kani::any(), x: Med::any(), y: Med::any(), gps: Seq::any() }
    }
    /// The values of layers that are not loaded are not compared.
    fn is(&self, o: &Cx, loaded: &Flags) -> bool {
        let (a, b) = (&self.last, &o.last);
        let mut r = (a.x == b.x) & (a.y == b.y) & (a.bit_fields == b.bit_fields) & (a.flags & 0x30 == b.flags & 0x30) & (a.gps_time_change == b.gps_time_change);
        let mut i = 0;
        while i < FIELDS {
            r = r & (!loaded[i] | (field(a, i) == field(b, i)));
            i += 1;
        }
        i = 0;
        while i < 8 {
            r = r & (!loaded[3] | (self.intensity[i] == o.intensity[i])) & (!loaded[0] | (self.z[i] == o.z[i]));
            i += 1;
        }
        r & self.x.is(&o.x) & self.y.is(&o.y) & (!loaded[7] | self.gps.is(&o.gps))
    }
    /// No layer that is not changed differs from `v`.
    fn level(&self, changed: &Flags, v: &Point6) -> bool {
        let mut r = true;
        let mut i = 1;
        while i < FIELDS {
            r = r & (changed[i] | (field(&self.last, i) == field(v, i)));
            i += 1;
        }
        r
    }
    fn ok(&self, channel: usize) -> bool {
        self.gps.ok() && channel_of(&self.last) == channel
    }
}
fn channel_of(p: &Point6) -> usize {
    (p.flags >> 4 & 3) as usize
}
fn field(p: &Point6, i: usize) -> u64 {
    match i {
        0 => p.z as u32 as u64,
        1 => p.classification as u64,
        2 => (p.flags & 0xCF) as u64,
        3 => p.intensity as u64,
        4 => p.scan_angle_rank as u16 as u64,
        5 => p.user_data as u64,
        6 => p.point_source_id as u64,
        _ => p.gps_time.to_bits(),
    }
}
fn flags(f: &Point6FieldFlags) -> Flags {
    [f.z, f.classification, f.flags, f.intensity, f.scan_angle, f.user_data, f.point_source, f.gps_time]
}
fn set_flags(f: &mut Point6FieldFlags, v: &Flags) {
    f.z = v[0];
    f.classification = v[1];
    f.flags = v[2];
    f.intensity = v[3];
    f.scan_angle = v[4];
    f.user_data = v[5];
    f.point_source = v[6];
    f.gps_time = v[7];
}
/// The point with the fields that are not loaded taken from `v`.
fn partial(p: &Point6, loaded: &Flags, v: &Point6) -> Point6 {
    let mut r = *p;
    if !loaded[0] {
        r.z = v.z;
    }
    if !loaded[1] {
        r.classification = v.classification;
    }
    if !loaded[2] {
        r.flags = p.flags & 0x30 | v.flags & 0xCF;
    }
    if !loaded[3] {
        r.intensity = v.intensity;
    }
    if !loaded[4] {
        r.scan_angle_rank = v.scan_angle_rank;
    }
    if !loaded[5] {
        r.user_data = v.user_data;
    }
    if !loaded[6] {
        r.point_source_id = v.point_source_id;
    }
    if !loaded[7] {
        r.gps_time = v.gps_time;
    }
    r
}

/// Which entries of the tables of a context are represented, and which of them are in use.
#[derive(Clone, Copy)]
struct Slots {
    changed: u8,
    median: u8,
    at: [u8; 5],
    there: [bool; 5],
}
impl Slots {
    fn any() -> Slots {
        Slots { changed: kani::any(), median: kani::any(), at: kani::any(), there: kani::any() }
    }
}
/// The compressor's table uses one index, any; the decompressor has to use the same.
fn index<T>(t: &mut g::Table<T>, at: u8, guess: bool) {
    if guess {
        t.guessed(at as usize);
    } else {
        t.only(at as usize);
    }
}
fn models(m: &mut Point6Models, s: &Slots, base: u32, guess: bool) {
    assert!(m.changed_values.len == 8 && m.number_of_returns.len == 16 && m.return_number.len == 16);
    assert!(m.classification.len == 64 && m.classification_flags.len == 64 && m.user_data.len == 64);
    index(&mut m.changed_values, s.changed, guess);
    m.changed_values.entry.id = base + 1;
    m.scanner_channel.id = base + 3;
    m.return_number_gps_same.id = base + 4;
    m.gps_time_multi.id = base + 5;
    m.gps_time_no_diff.id = base + 6;
    let t = [&mut m.number_of_returns, &mut m.return_number, &mut m.classification, &mut m.classification_flags, &mut m.user_data];
    let mut i = 0;
    for t in t {
        assert!(!t.entry.there && !t.other.there);
        index(t, s.at[i], guess);
        if s.there[i] {
            t.entry.there = true;
            t.entry.model.symbols = if i < 2 { 16 } else if i == 3 { 64 } else { 256 };
            t.entry.model.id = base + 10 + i as u32;
        }
        i += 1;
    }
}
fn tag_c(i: &mut Point6Compressors, base: u32) {
    assert!(i.dx.ready && i.dy.ready && i.z.ready && i.intensity.ready && i.scan_angle.ready && i.source_id.ready && i.gps_time.ready);
    i.dx.id = base + 20;
    i.dy.id = base + 21;
    i.z.id = base + 22;
    i.intensity.id = base + 23;
    i.scan_angle.id = base + 24;
    i.source_id.id = base + 25;
    i.gps_time.id = base + 26;
}
fn tag_d(i: &mut Point6Decompressors, base: u32) {
    assert!(i.dx.ready && i.dy.ready && i.z.ready && i.intensity.ready && i.scan_angle.ready && i.source_id.ready && i.gps_time.ready);
    i.dx.id = base + 20;
    i.dy.id = base + 21;
    i.z.id = base + 22;
    i.intensity.id = base + 23;
    i.scan_angle.id = base + 24;
    i.source_id.id = base + 25;
    i.gps_time.id = base + 26;
}
fn set_medians(x: &mut g::Table<StreamingMedian<i32>>, y: &mut g::Table<StreamingMedian<i32>>, s: &Cx, at: u8, guess: bool) {
    assert!(x.len == 12 && y.len == 12);
    index(x, at, guess);
    index(y, at, guess);
    x.entry = s.x;
    y.entry = s.y;
}
fn set_c(c: &mut Point6CompressionContext, last: &mut Point6, s: &Cx, k: &Slots, base: u32) {
    c.unused = false;
    models(&mut c.models, k, base, true);
    tag_c(&mut c.compressors, base);
    *last = s.last;
    c.last_intensities = s.intensity;
    c.last_z = s.z;
    set_medians(&mut c.last_x_diff_median5, &mut c.last_y_diff_median5, s, k.median, true);
    s.gps.put(&mut c.gps_sequences);
}
fn set_d(c: &mut Point6DecompressionContext, s: &Cx, k: &Slots, base: u32) {
    c.unused = false;
    models(&mut c.models, k, base, false);
    tag_d(&mut c.decompressors, base);
    c.last_point = s.last;
    c.last_intensities = s.intensity;
    c.last_z = s.z;
    set_medians(&mut c.last_x_diff_median5, &mut c.last_y_diff_median5, s, k.median, false);
    s.gps.put(&mut c.gps_sequences);
}
fn cx_c(c: &Point6CompressionContext, last: &Point6) -> Cx {
    Cx { last: *last, intensity: c.last_intensities, z: c.last_z, x: c.last_x_diff_median5.entry, y: c.last_y_diff_median5.entry, gps: Seq::of(&c.gps_sequences) }
}
fn cx_d(c: &Point6DecompressionContext) -> Cx {
    Cx { last: c.last_point, intensity: c.last_intensities, z: c.last_z, x: c.last_x_diff_median5.entry, y: c.last_y_diff_median5.entry, gps: Seq::of(&c.gps_sequences) }
}
/// The decompressor's context: where a layer is not loaded, the first point's value and nothing known
/// of the rest.
fn unloaded(s: &Cx, loaded: &Flags, v: &Point6) -> Cx {
    let mut r = *s;
    r.last = partial(&s.last, loaded, v);
    if !loaded[3] {
        r.intensity = kani::any();
    }
    if !loaded[0] {
        r.z = kani::any();
    }
    if !loaded[7] {
        r.gps = Seq::any();
        kani::assume(r.gps.ok());
    }
    r
}

pub fn newc<const V: usize>() -> LasPoint6CompressorImpl<V> {
    let mut c = LasPoint6CompressorImpl::<V>::default();
    let e = &mut c.encoders;
    let all = [&mut e.channel_returns_xy, &mut e.z, &mut e.classification, &mut e.flags, &mut e.intensity, &mut e.scan_angle, &mut e.user_data, &mut e.point_source, &mut e.gps_time];
    let mut i = 0;
    for e in all {
        e.lane = i;
        i += 1;
    }
    c
}
pub fn newd<const V: usize>() -> LasPoint6DecompressorImpl<V> {
    let mut c = LasPoint6DecompressorImpl::<V>::default();
    let e = &mut c.decoders;
    let all = [&mut e.channel_returns_xy, &mut e.z, &mut e.classification, &mut e.flags, &mut e.intensity, &mut e.scan_angle, &mut e.user_data, &mut e.point_source, &mut e.gps_time];
    let mut i = 0;
    for e in all {
        e.lane = i;
        i += 1;
    }
    c
}

// ---------------------------------------------------------------- GPS time by contract
static mut BEFORE: Seq = Seq { last: 0, next: 0, times: [0; 4], diffs: [0; 4], extreme: [0; 4] };
static mut AFTER: Seq = Seq { last: 0, next: 0, times: [0; 4], diffs: [0; 4], extreme: [0; 4] };
/// Contract of `compress_gps_time` and `read_gps_time` (shown by `gps*`): from equal sequences, with
/// the models of the same context, both end in equal sequences, the last time being the one coded.
pub fn stub_compress_gps<const VERSION: usize>(c: &mut LasPoint6CompressorImpl<VERSION>, t: GpsTime) -> std::io::Result<()> {
    let lane = c.encoders.gps_time.lane;
    let cur = &mut c.contexts[c.current_context];
    let s = Seq::of(&cur.gps_sequences);
    assert!(s.ok(), "invariant of the GPS sequences");
    let r = Seq::any();
    kani::assume(r.ok() && r.times[r.last] == t.value);
    unsafe {
        BEFORE = s;
        AFTER = r;
    }
    r.put(&mut cur.gps_sequences);
    g::put(lane, g::Ev { kind: g::REC, id: cur.models.gps_time_multi.id, ctx: cur.models.gps_time_no_diff.id, a: t.value as u64, b: 0 });
    Ok(())
}
pub fn stub_read_gps<const VERSION: usize>(c: &mut LasPoint6DecompressorImpl<VERSION>) -> std::io::Result<()> {
    let lane = c.decoders.gps_time.lane;
    let cur = &mut c.contexts[c.current_context];
    g::get(lane, g::REC, cur.models.gps_time_multi.id, cur.models.gps_time_no_diff.id);
    unsafe {
        assert!(Seq::of(&cur.gps_sequences).is(&BEFORE), "GPS sequences of both sides are the same");
        AFTER.put(&mut cur.gps_sequences);
    }
    Ok(())
}

// ---------------------------------------------------------------- one record
/// What both sides have to come to, given the contexts of the record.
fn check<const V: usize>(c: &mut LasPoint6CompressorImpl<V>, d: &mut LasPoint6DecompressorImpl<V>, loaded: &Flags, v: &Point6, old: usize, new: usize) {
    let rec: [u8; SIZE] = kani::any();
    let p = Point6::unpack_from(&rec);
    kani::assume(channel_of(&p) == new);
    let was = flags(&c.has_changed);
    let mut out: [u8; SIZE] = kani::any();
    let arg: usize = kani::any();
    let (mut cc, mut dc) = (arg, arg);
    assert!(LayeredFieldCompressor::<g::Bytes>::compress_field_with(c, &rec, &mut cc).is_ok());
    assert!(LayeredFieldDecompressor::<Src>::decompress_field_with(d, &mut out, &mut dc).is_ok());
    // the record
    let o = Point6::unpack_from(&out);
    assert!((o.x == p.x) & (o.y == p.y) & (o.bit_fields == p.bit_fields) & (o.flags & 0x30 == p.flags & 0x30), "decompressed x, y, returns and channel are the compressed ones");
    let changed = flags(&c.has_changed);
    let mut i = 0;
    while i < FIELDS {
        let (a, b, first) = (field(&o, i), field(&p, i), field(v, i));
        if loaded[i] {
            assert!(a == b, "decompressed field is the compressed one");
            assert!(g::unread(i + 1) == 0, "decoder leaves values unread");
        } else {
            assert!(a == first, "a field not decoded keeps its first value");
        }
        assert!(changed[i] || i == Z || b == first, "a layer is left out only if it did not change");
        assert!(changed[i] || !was[i], "a layer that has changed stays so");
        i += 1;
    }
    assert!(g::unread(0) == 0, "decoder leaves values unread");
    // the context of the other fields
    assert!(cc == dc, "both sides choose the same context");
    if V == 4 || new != old {
        assert!(cc == new, "the context is that of the channel");
    } else {
        assert!(cc == arg, "the context stays");
    }
    // the states
    {
        let (a, b) = (&c.contexts.entry, &d.contexts.entry);
        let (ma, mb) = (&a.models, &b.models);
        assert!(a.last_x_diff_median5.at == b.last_x_diff_median5.at && a.last_y_diff_median5.at == b.last_y_diff_median5.at, "both sides use the same medians");
        assert!(ma.number_of_returns.entry.there == mb.number_of_returns.entry.there && ma.return_number.entry.there == mb.return_number.entry.there, "both sides have the same models");
        assert!(!loaded[1] || ma.classification.entry.there == mb.classification.entry.there, "both sides have the same models");
        assert!(!loaded[2] || ma.classification_flags.entry.there == mb.classification_flags.entry.there, "both sides have the same models");
        assert!(!loaded[5] || ma.user_data.entry.there == mb.user_data.entry.there, "both sides have the same models");
    }
    assert!(c.current_context == new && d.current_context == new, "current context is that of the channel");
    let (sc, sd) = (cx_c(&c.contexts.entry, &c.last_values.entry), cx_d(&d.contexts.entry));
    assert!(!c.contexts.entry.unused && !d.contexts.entry.unused, "the context is in use");
    assert!(sc.is(&sd, loaded), "both sides end in corresponding states");
    assert!(sc.ok(new) && sc.level(&changed, v), "invariant of the state");
    assert!(sd.gps.ok() && field_level(&sd.last, loaded, v), "a field not decoded keeps its first value");
    kani::cover!(g::written(0) == 5);
    kani::cover!(changed[GPS]);
}
fn field_level(p: &Point6, loaded: &Flags, v: &Point6) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < FIELDS {
        r = r & (loaded[i] | (field(p, i) == field(v, i)));
        i += 1;
    }
    r
}
fn same<const V: usize>() {
    let ctx = g::any_context();
    let (s, k, v) = (Cx::any(), Slots::any(), any_point());
    let (changed, loaded): (Flags, Flags) = (kani::any(), kani::any());
    kani::assume(s.ok(ctx) && s.level(&changed, &v));
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    c.contexts.only(ctx);
    c.last_values.only(ctx);
    d.contexts.only(ctx);
    c.current_context = ctx;
    d.current_context = ctx;
    set_flags(&mut c.has_changed, &changed);
    set_flags(&mut d.should_decompress, &loaded);
    set_c(&mut c.contexts.entry, &mut c.last_values.entry, &s, &k, 0);
    set_d(&mut d.contexts.entry, &unloaded(&s, &loaded, &v), &k, 0);
    check(&mut c, &mut d, &loaded, &v, ctx, ctx);
    std::mem::forget((c, d));
}
/// The channels of a switch are constants of the harness; there is one for every pair.
static mut CHANNEL: u8 = 0;
static mut SWITCHES: bool = false;
/// The bit that tells a switch: what it is, kept where the verifier sees that it is a constant.
pub fn switching(bit: bool) -> bool {
    unsafe {
        assert!(bit == SWITCHES, "a switch of channel is told exactly when there is one");
        SWITCHES
    }
}
/// `scanner_channel` (shown by `accessors`) of the points of a record that switches to `CHANNEL`.
pub fn known_channel(p: &Point6) -> u8 {
    unsafe {
        assert!((p.flags >> 4) & 3 == CHANNEL, "asking for another channel is not currently supported by Kani");
        CHANNEL
    }
}
fn switch<const V: usize>(used: bool, old: usize, new: usize) {
    unsafe {
        CHANNEL = new as u8;
        SWITCHES = true;
        g::NOTED = 3;
    }
    let (s, k, v) = (Cx::any(), Slots::any(), any_point());
    let (changed, loaded): (Flags, Flags) = (kani::any(), kani::any());
    kani::assume(s.ok(old) && s.level(&changed, &v));
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    c.contexts.both(new, old);
    c.last_values.both(new, old);
    d.contexts.both(new, old);
    c.current_context = old;
    d.current_context = old;
    set_flags(&mut c.has_changed, &changed);
    set_flags(&mut d.should_decompress, &loaded);
    let t = unloaded(&s, &loaded, &v);
    set_c(&mut c.contexts.other, &mut c.last_values.other, &s, &k, 0);
    set_d(&mut d.contexts.other, &t, &k, 0);
    if used {
        let (s, k) = (Cx::any(), Slots::any());
        kani::assume(s.ok(new) && s.level(&changed, &v));
        set_c(&mut c.contexts.entry, &mut c.last_values.entry, &s, &k, 100);
        set_d(&mut d.contexts.entry, &unloaded(&s, &loaded, &v), &k, 100);
    } else {
        // never used since the codec was made, on the side of the compressor
        d.contexts.entry.unused = true;
        d.contexts.entry.last_point = any_point();
        c.last_values.entry = any_point();
    }
    check(&mut c, &mut d, &loaded, &v, old, new);
    assert!(cx_c(&c.contexts.other, &c.last_values.other).is(&s, &[true; FIELDS]) && !c.contexts.other.unused, "the context left behind is not touched");
    assert!(cx_d(&d.contexts.other).is(&t, &[true; FIELDS]) && !d.contexts.other.unused, "the context left behind is not touched");
    std::mem::forget((c, d));
}

macro_rules! point6_harness {
    ($name:ident, $body:block) => {
        g::light_harness!($name, 32,
            #[kani::stub(crate::las::point6::v3_v4::LasPoint6CompressorImpl::compress_gps_time, crate::las::point6::v3_v4::verif_kani::stub_compress_gps)]
            #[kani::stub(crate::las::point6::v3_v4::LasPoint6DecompressorImpl::read_gps_time, crate::las::point6::v3_v4::verif_kani::stub_read_gps)]
            $body);
    };
}
point6_harness!(same3, { same::<3>() });
point6_harness!(same4, { same::<4>() });
macro_rules! switch_harness {
    ($name:ident, $v:expr, $used:expr, $old:expr, $new:expr) => {
        g::light_harness!($name, 32,
            #[kani::stub(crate::las::point6::v3_v4::LasPoint6CompressorImpl::compress_gps_time, crate::las::point6::v3_v4::verif_kani::stub_compress_gps)]
            #[kani::stub(crate::las::point6::v3_v4::LasPoint6DecompressorImpl::read_gps_time, crate::las::point6::v3_v4::verif_kani::stub_read_gps)]
            #[kani::stub(<Point6 as LasPoint6>::scanner_channel, crate::las::point6::v3_v4::verif_kani::known_channel)]
            { switch::<$v>($used, $old, $new) });
    };
}
switch_harness!(switch3_01, 3, true, 0, 1);
switch_harness!(switch3_02, 3, true, 0, 2);
switch_harness!(switch3_03, 3, true, 0, 3);
switch_harness!(switch3_10, 3, true, 1, 0);
switch_harness!(switch3_12, 3, true, 1, 2);
switch_harness!(switch3_13, 3, true, 1, 3);
switch_harness!(switch3_20, 3, true, 2, 0);
switch_harness!(switch3_21, 3, true, 2, 1);
switch_harness!(switch3_23, 3, true, 2, 3);
switch_harness!(switch3_30, 3, true, 3, 0);
switch_harness!(switch3_31, 3, true, 3, 1);
switch_harness!(switch3_32, 3, true, 3, 2);
switch_harness!(switch4_01, 4, true, 0, 1);
switch_harness!(switch4_02, 4, true, 0, 2);
switch_harness!(switch4_03, 4, true, 0, 3);
switch_harness!(switch4_10, 4, true, 1, 0);
switch_harness!(switch4_12, 4, true, 1, 2);
switch_harness!(switch4_13, 4, true, 1, 3);
switch_harness!(switch4_20, 4, true, 2, 0);
switch_harness!(switch4_21, 4, true, 2, 1);
switch_harness!(switch4_23, 4, true, 2, 3);
switch_harness!(switch4_30, 4, true, 3, 0);
switch_harness!(switch4_31, 4, true, 3, 1);
switch_harness!(switch4_32, 4, true, 3, 2);
switch_harness!(fresh3_01, 3, false, 0, 1);
switch_harness!(fresh3_02, 3, false, 0, 2);
switch_harness!(fresh3_03, 3, false, 0, 3);
switch_harness!(fresh3_10, 3, false, 1, 0);
switch_harness!(fresh3_12, 3, false, 1, 2);
switch_harness!(fresh3_13, 3, false, 1, 3);
switch_harness!(fresh3_20, 3, false, 2, 0);
switch_harness!(fresh3_21, 3, false, 2, 1);
switch_harness!(fresh3_23, 3, false, 2, 3);
switch_harness!(fresh3_30, 3, false, 3, 0);
switch_harness!(fresh3_31, 3, false, 3, 1);
switch_harness!(fresh3_32, 3, false, 3, 2);
switch_harness!(fresh4_01, 4, false, 0, 1);
switch_harness!(fresh4_02, 4, false, 0, 2);
switch_harness!(fresh4_03, 4, false, 0, 3);
switch_harness!(fresh4_10, 4, false, 1, 0);
switch_harness!(fresh4_12, 4, false, 1, 2);
switch_harness!(fresh4_13, 4, false, 1, 3);
switch_harness!(fresh4_20, 4, false, 2, 0);
switch_harness!(fresh4_21, 4, false, 2, 1);
switch_harness!(fresh4_23, 4, false, 2, 3);
switch_harness!(fresh4_30, 4, false, 3, 0);
switch_harness!(fresh4_31, 4, false, 3, 1);
switch_harness!(fresh4_32, 4, false, 3, 2);
g::light_harness!(accessors, 32, {
    let mut p = any_point();
    let q = p;
    assert!(p.scanner_channel() == (p.flags >> 4) & 3, "the scanner channel is bits 4 and 5");
    let c: u8 = kani::any();
    kani::assume(c < 4);
    p.set_scanner_channel(c);
    assert!(p.scanner_channel() == c && p.flags & 0xCF == q.flags & 0xCF, "only the channel is set");
    kani::cover!(true);
});

// ---------------------------------------------------------------- GPS time
static mut AGAIN: u32 = 0;
fn fits(s: &Seq, t: i64) -> bool {
    let d = t.wrapping_sub(s.times[s.last]);
    d == d as i32 as i64
}
/// Contract of the recursive call: made in a state in which no further switch follows.
pub fn again<const V: usize>(c: &mut LasPoint6CompressorImpl<V>, t: GpsTime) -> std::io::Result<()> {
    let s = Seq::of(&c.contexts[c.current_context].gps_sequences);
    assert!(s.ok(), "invariant of the GPS sequences");
    assert!(fits(&s, t.value), "the time belongs to the sequence switched to");
    unsafe { AGAIN += 1 };
    Ok(())
}
fn gps<const V: usize>() {
    let ctx = g::any_context();
    let s = Seq::any();
    kani::assume(s.ok());
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    c.contexts.only(ctx);
    d.contexts.only(ctx);
    c.current_context = ctx;
    d.current_context = ctx;
    {
        let (a, b) = (&mut c.contexts.entry, &mut d.contexts.entry);
        tag_c(&mut a.compressors, 0);
        tag_d(&mut b.decompressors, 0);
        a.models.gps_time_multi.id = 5;
        b.models.gps_time_multi.id = 5;
        a.models.gps_time_no_diff.id = 6;
        b.models.gps_time_no_diff.id = 6;
        s.put(&mut a.gps_sequences);
        s.put(&mut b.gps_sequences);
    }
    let value: i64 = kani::any();
    assert!(c.compress_gps_time(GpsTime { value }).is_ok());
    let more = d.read_gps_time_step();
    assert!(more.is_ok());
    let more = more.unwrap();
    unsafe {
        assert!(more == (AGAIN == 1) && AGAIN <= 1, "both sides switch the sequence together");
        assert!(!(fits(&s, value) && more), "no switch without need, so at most one");
    }
    assert!(g::unread(8) == 0, "decoder leaves values unread");
    let (t, u) = (Seq::of(&c.contexts.entry.gps_sequences), Seq::of(&d.contexts.entry.gps_sequences));
    assert!(t.is(&u) && t.ok(), "both sides end in corresponding states");
    if !more {
        assert!(u.times[u.last] == value, "decompressed time is the compressed one");
    }
    kani::cover!(g::written(8) == 3 && !more);
    kani::cover!(more);
    std::mem::forget((c, d));
}
g::light_harness!(gps3, 12, #[kani::stub(i32::wrapping_mul, crate::verif_ghost::some_product)] { gps::<3>() });
g::light_harness!(gps4, 12, #[kani::stub(i32::wrapping_mul, crate::verif_ghost::some_product)] { gps::<4>() });

// ---------------------------------------------------------------- first record
fn begin<const V: usize>() {
    let rec: [u8; SIZE] = kani::any();
    let p = Point6::unpack_from(&rec);
    let ctx = p.scanner_channel() as usize;
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    c.contexts.only(ctx);
    d.contexts.only(ctx);
    c.last_values.only(ctx);
    let mut out: [u8; SIZE] = kani::any();
    let (mut cc, mut dc) = (kani::any(), kani::any());
    let mut sink = g::Bytes::new();
    assert!(c.init_first_point(&mut sink, &rec, &mut cc).is_ok());
    assert!(sink.is(&rec), "first record is stored as it is");
    assert!(d.init_first_point(&mut sink, &mut out, &mut dc).is_ok());
    assert!(g::same(&out, &rec) && sink.at == SIZE, "first record is read as it is");
    assert!(cc == ctx && dc == ctx && c.current_context == ctx && d.current_context == ctx, "the context is that of the channel");
    assert!(!c.contexts.entry.unused && !d.contexts.entry.unused, "the context is in use");
    assert!(c.contexts.other.unused && d.contexts.other.unused, "the others are not");
    let (sc, sd) = (cx_c(&c.contexts.entry, &c.last_values.entry), cx_d(&d.contexts.entry));
    assert!(sc.is(&sd, &[true; FIELDS]) && sc.ok(ctx) && sc.level(&[false; FIELDS], &p), "both sides start in corresponding states");
    let f = flags(&c.has_changed);
    assert!(!(f[1] | f[2] | f[3] | f[4] | f[5] | f[6] | f[7]), "nothing has changed yet");
    kani::cover!(true);
    std::mem::forget((c, d));
}
g::light_harness!(first3, 34, { begin::<3>() });
g::light_harness!(first4, 34, { begin::<4>() });

// ---------------------------------------------------------------- layers
fn layers<const V: usize>(c: &mut LasPoint6CompressorImpl<V>, d: &mut LasPoint6DecompressorImpl<V>, changed: &Flags, requested: &Flags) {
    g::restart();
    let e = &mut c.encoders;
    for e in [&mut e.channel_returns_xy, &mut e.z, &mut e.classification, &mut e.flags, &mut e.intensity, &mut e.scan_angle, &mut e.user_data, &mut e.point_source, &mut e.gps_time] {
        std::mem::forget(std::mem::replace(&mut e.out, Cursor::new(Vec::new())));
    }
    set_flags(&mut c.has_changed, changed);
    set_flags(&mut d.is_requested, requested);
    let mut n = 1 + FIELDS;
    let mut i = 0;
    while i <= FIELDS {
        g::any_content(i as u32);
        if i > 1 && !changed[i - 1] {
            n -= 1;
        }
        i += 1;
    }
    let mut sink = g::Bytes::new();
    assert!(c.write_layers_sizes(&mut sink).is_ok());
    assert!(c.write_layers(&mut sink).is_ok());
    assert!(sink.n == 4 * (1 + FIELDS) + g::CONTENT_LEN * n, "sizes and bytes of the layers");
    assert!(LayeredFieldDecompressor::<Src>::read_layers_sizes(d, &mut sink).is_ok());
    assert!(LayeredFieldDecompressor::<Src>::read_layers(d, &mut sink).is_ok());
    assert!(sink.at == sink.n, "the layers are read or skipped, no more and no less");
    let loaded = flags(&d.should_decompress);
    g::layer_loaded(0, true);
    i = 0;
    while i < FIELDS {
        let wanted = requested[i] && (changed[i] || i == Z);
        assert!(loaded[i] == wanted, "selected layers with data are decoded");
        g::layer_loaded(i + 1, wanted);
        i += 1;
    }
}
const ALL: Flags = [true; FIELDS];
const NONE: Flags = [false; FIELDS];
// each layer has another combination of these
const SOME: [Flags; 3] = [[false, true, false, true, false, true, false, true], [false, false, true, true, false, false, true, true], [false, false, false, false, true, true, true, true]];
fn extremes<const V: usize>() {
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    layers(&mut c, &mut d, &ALL, &ALL);
    layers(&mut c, &mut d, &ALL, &NONE);
    layers(&mut c, &mut d, &NONE, &ALL);
    std::mem::forget((c, d));
}
fn some_changed<const V: usize>() {
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    layers(&mut c, &mut d, &SOME[0], &ALL);
    layers(&mut c, &mut d, &SOME[1], &ALL);
    layers(&mut c, &mut d, &SOME[2], &ALL);
    std::mem::forget((c, d));
}
fn some_wanted<const V: usize>() {
    let (mut c, mut d) = (newc::<V>(), newd::<V>());
    layers(&mut c, &mut d, &ALL, &SOME[0]);
    layers(&mut c, &mut d, &ALL, &SOME[1]);
    layers(&mut c, &mut d, &ALL, &SOME[2]);
    std::mem::forget((c, d));
}
fn selection<const V: usize>() {
    let (c, mut d) = (newc::<V>(), newd::<V>());
    let f = flags(&d.is_requested);
    assert!(f[0] & f[1] & f[2] & f[3] & f[4] & f[5] & f[6] & f[7], "everything is decoded unless told otherwise");
    let f: Flags = kani::any();
    set_flags(&mut d.is_requested, &f);
    let sel: u32 = kani::any();
    LayeredFieldDecompressor::<Src>::set_selection(&mut d, DecompressionSelection(sel));
    let f = flags(&d.is_requested);
    let mut i = 0;
    while i < FIELDS {
        assert!(f[i] == (sel & (1 << i) != 0), "the layer is decoded if it is selected");
        i += 1;
    }
    assert!(LayeredFieldDecompressor::<Src>::size_of_field(&d) == SIZE && LayeredFieldCompressor::<g::Bytes>::size_of_field(&c) == SIZE);
    kani::cover!(true);
    std::mem::forget((c, d));
}
g::light_harness!(layers3, 12, { extremes::<3>() });
g::light_harness!(layers4, 12, { extremes::<4>() });
g::light_harness!(changed3, 12, { some_changed::<3>() });
g::light_harness!(changed4, 12, { some_changed::<4>() });
g::light_harness!(wanted3, 12, { some_wanted::<3>() });
g::light_harness!(wanted4, 12, { some_wanted::<4>() });
g::light_harness!(selection3, 12, { selection::<3>() });
g::light_harness!(selection4, 12, { selection::<4>() });
