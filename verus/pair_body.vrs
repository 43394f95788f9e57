// ================================================================ encoder and decoder together
// f lies in the interval a
pub open spec fn within(f: Seq<u8>, a: Iv) -> bool {
    f.len() >= a.n + 4 && a.n >= 0 && a.low <= nat256(f.take(a.n + 4)) < a.low + a.len
}
// the decoder reading f stands where the encoder stood in interval a
pub open spec fn tracks(d: Dv, a: Iv, f: Seq<u8>) -> bool {
    d.len == a.len && d.value == nat256(f.take(a.n + 4)) - a.low && d.left == f.skip(a.n + 4) && within(f, a)
}
pub open spec fn working(a: Iv) -> bool { 0x100_0000 <= a.len < 0x1_0000_0000 && a.n >= 0 }
pub open spec fn inner(a: Iv, x: int, l: int) -> bool { 0 <= x && 1 <= l && x + l <= a.len }

pub proof fn lemma_take(f: Seq<u8>, n: int, k: int)
    requires 0 <= n, 0 <= k <= 3, f.len() >= n + k
    ensures nat256(f.take(n + k)) == times(nat256(f.take(n)), k) + nat256(f.skip(n).take(k)), 0 <= nat256(f.skip(n).take(k)) < times(1, k),
        f.skip(n).skip(k) == f.skip(n + k)
{
    assert(f.take(n + k) =~= f.take(n) + f.skip(n).take(k));
    lemma_nat_append(f.take(n), f.skip(n).take(k)); lemma_times(nat256(f.take(n)), k); lemma_times(1, k);
    lemma_nat_bounds(f.skip(n).take(k));
    assert(f.skip(n).skip(k) =~= f.skip(n + k));
}
// a number in a part of an interval is in the interval, and in that part of it
pub proof fn lemma_back(a: Iv, x: int, l: int, f: Seq<u8>)
    requires working(a), inner(a, x, l), within(f, narrow(a, x, l))
    ensures within(f, a), a.low + x <= nat256(f.take(a.n + 4)) < a.low + x + l, working(narrow(a, x, l))
{ lemma_take(f, a.n + 4, shifts(l)); }
// one step: the decoder's value lies in the part the encoder took, and both go on in step
pub proof fn lemma_follow(d: Dv, a: Iv, x: int, l: int, f: Seq<u8>)
    requires working(a), inner(a, x, l), tracks(d, a, f), within(f, narrow(a, x, l))
    ensures x <= d.value < x + l, feeds(d, l), tracks(part_of(d, x, l), narrow(a, x, l), f)
{
    lemma_back(a, x, l, f); lemma_take(f, a.n + 4, shifts(l));
    let k = shifts(l); let v = nat256(f.take(a.n + 4));
    assert(times(v - a.low - x, k) == times(v, k) - times(a.low + x, k));
}
pub proof fn lemma_sym_unique(m: ArithmeticModel, len: int, s: int, t: int, v: int)
    requires static_ok(m), shares_ok(m.distribution@, m.symbols as int), 0x100_0000 <= len < 0x1_0000_0000, 0 <= s < m.symbols, 0 <= t < m.symbols,
        sym_x(m, len, s) <= v < sym_x(m, len, s) + sym_l(m, len, s), sym_x(m, len, t) <= v < sym_x(m, len, t) + sym_l(m, len, t)
    ensures s == t
{
    let d = m.distribution@; let u = len / 32768;
    if s < t {
        if s + 1 < t { assert(d[s + 1] < d[t]); }
        assert(d[s + 1] * u <= d[t] * u) by(nonlinear_arith) requires d[s + 1] <= d[t], u >= 0;
    } else if t < s {
        if t + 1 < s { assert(d[t + 1] < d[s]); }
        assert(d[t + 1] * u <= d[s] * u) by(nonlinear_arith) requires d[t + 1] <= d[s], u >= 0;
    }
}
pub proof fn lemma_raw_follow(d: Dv, a: Iv, bits: int, v: int, f: Seq<u8>)
    requires working(a), 1 <= bits <= 19, 0 <= v < p2(bits), tracks(d, a, f), within(f, narrow_raw(a, bits, v))
    ensures raw_val(d, bits) == v, raw_ok(d, bits), raw_fed(d, bits), tracks(raw_next(d, bits), narrow_raw(a, bits, v), f), working(narrow_raw(a, bits, v))
{
    lemma_raw(a.len, bits, v); let x = raw_x(a.len, bits, v); let l = raw_l(a.len, bits);
    lemma_back(a, x, l, f); lemma_follow(d, a, x, l, f);
    assert(d.value / l == v) by(nonlinear_arith) requires v * l <= d.value, d.value < v * l + l, l >= 1;
}
pub proof fn lemma_raw_within(a: Iv, bits: int, v: int, f: Seq<u8>)
    requires working(a), 1 <= bits <= 19, 0 <= v < p2(bits), within(f, narrow_raw(a, bits, v))
    ensures within(f, a), working(narrow_raw(a, bits, v))
{ lemma_raw(a.len, bits, v); lemma_back(a, raw_x(a.len, bits, v), raw_l(a.len, bits), f); }
pub proof fn lemma_raw_working(a: Iv, bits: int, v: int)
    requires working(a), 1 <= bits <= 19, 0 <= v < p2(bits)
    ensures working(narrow_raw(a, bits, v))
{ lemma_raw(a.len, bits, v); }
pub proof fn lemma_bits_follow(d: Dv, a: Iv, bits: int, v: int, f: Seq<u8>)
    requires working(a), 1 <= bits <= 32, 0 <= v < p2(bits), tracks(d, a, f), within(f, narrow_bits(a, bits, v))
    ensures bits_val(d, bits) == v, bits_ok(d, bits), bits_fed(d, bits), tracks(bits_next(d, bits), narrow_bits(a, bits, v), f), working(narrow_bits(a, bits, v)), within(f, a)
{
    if bits > 19 {
        lemma_p2_table(); lemma_halves(bits, v); 
        let m = narrow_raw(a, 16, v % 65536);
        lemma_raw_working(a, 16, v % 65536);
        lemma_raw_within(m, bits - 16, v / 65536, f); lemma_raw_within(a, 16, v % 65536, f);
        lemma_raw_follow(d, a, 16, v % 65536, f); lemma_raw_follow(raw_next(d, 16), m, bits - 16, v / 65536, f);
    } else { lemma_raw_within(a, bits, v, f); lemma_raw_follow(d, a, bits, v, f); }
}
pub proof fn lemma_int_is_bits(a: Iv, v: int)
    ensures narrow_int(a, v) == narrow_bits(a, 32, v), p2(32) == 0x1_0000_0000
{ reveal_with_fuel(p2, 34); }
pub proof fn lemma_int64_follow(d: Dv, a: Iv, v: int, f: Seq<u8>)
    requires working(a), 0 <= v < 0x1_0000_0000_0000_0000, tracks(d, a, f), within(f, narrow_int64(a, v))
    ensures int64_ok(d), bits_fed(d, 32), bits_fed(bits_next(d, 32), 32), bits_val(d, 32) + 0x1_0000_0000 * bits_val(bits_next(d, 32), 32) == v,
        tracks(bits_next(bits_next(d, 32), 32), narrow_int64(a, v), f), within(f, a), working(narrow_int64(a, v))
{
    let m = narrow_int(a, v % 0x1_0000_0000);
    lemma_int_is_bits(a, v % 0x1_0000_0000); lemma_int_is_bits(m, v / 0x1_0000_0000);
    lemma_bits_working(a, 32, v % 0x1_0000_0000);
    lemma_bits_within(m, 32, v / 0x1_0000_0000, f); lemma_bits_within(a, 32, v % 0x1_0000_0000, f);
    lemma_bits_follow(d, a, 32, v % 0x1_0000_0000, f); lemma_bits_follow(bits_next(d, 32), m, 32, v / 0x1_0000_0000, f);
}
pub proof fn lemma_bits_working(a: Iv, bits: int, v: int)
    requires working(a), 1 <= bits <= 32, 0 <= v < p2(bits)
    ensures working(narrow_bits(a, bits, v))
{
    if bits > 19 { lemma_p2_table(); lemma_halves(bits, v); lemma_raw_working(a, 16, v % 65536); lemma_raw_working(narrow_raw(a, 16, v % 65536), bits - 16, v / 65536); }
    else { lemma_raw_working(a, bits, v); }
}
pub proof fn lemma_bits_within(a: Iv, bits: int, v: int, f: Seq<u8>)
    requires working(a), 1 <= bits <= 32, 0 <= v < p2(bits), within(f, narrow_bits(a, bits, v))
    ensures within(f, a)
{
    if bits > 19 { lemma_p2_table(); lemma_halves(bits, v); lemma_raw_working(a, 16, v % 65536); lemma_raw_within(narrow_raw(a, 16, v % 65536), bits - 16, v / 65536, f);
        lemma_raw_within(a, 16, v % 65536, f); }
    else { lemma_raw_within(a, bits, v, f); }
}

// ---------------------------------------------------------------- any history of calls
pub enum Op { Sym(usize, u32), Bit(usize, u32), OneBit(u32), Bits(u32, u32), Byte(u8), Short(u16), Int(u32), Int64(u64) }
pub open spec fn op_ok(op: Op, ms: Seq<ArithmeticModel>, bs: Seq<ArithmeticBitModel>) -> bool {
    match op {
        Op::Sym(i, s) => i < ms.len() && s < ms[i as int].symbols,
        Op::Bit(i, s) => i < bs.len() && s <= 1,
        Op::OneBit(s) => s <= 1,
        Op::Bits(b, s) => 1 <= b <= 32 && s < p2(b as int),
        _ => true,
    }
}
pub open spec fn op_iv(op: Op, a: Iv, ms: Seq<ArithmeticModel>, bs: Seq<ArithmeticBitModel>) -> Iv {
    match op {
        Op::Sym(i, s) => narrow(a, sym_x(ms[i as int], a.len, s as int), sym_l(ms[i as int], a.len, s as int)),
        Op::Bit(i, s) => narrow(a, bit_x(bs[i as int], a.len, s as int), bit_l(bs[i as int], a.len, s as int)),
        Op::OneBit(s) => narrow_raw(a, 1, s as int),
        Op::Bits(b, s) => narrow_bits(a, b as int, s as int),
        Op::Byte(s) => narrow_raw(a, 8, s as int),
        Op::Short(s) => narrow_raw(a, 16, s as int),
        Op::Int(s) => narrow_int(a, s as int),
        Op::Int64(s) => narrow_int64(a, s as int),
    }
}
pub open spec fn op_val(op: Op) -> int {
    match op { Op::Sym(_, s) => s as int, Op::Bit(_, s) => s as int, Op::OneBit(s) => s as int, Op::Bits(_, s) => s as int, Op::Byte(s) => s as int, Op::Short(s) => s as int, Op::Int(s) => s as int, Op::Int64(s) => s as int }
}
// the models after the operation: one of them took a step, the others stay
pub open spec fn op_models(op: Op, m0: Seq<ArithmeticModel>, b0: Seq<ArithmeticBitModel>, m1: Seq<ArithmeticModel>, b1: Seq<ArithmeticBitModel>) -> bool {
    m1.len() == m0.len() && b1.len() == b0.len()
    && (forall|i: int| 0 <= i < m0.len() && !(op is Sym && op->Sym_0 == i) ==> #[trigger] m1[i] == m0[i])
    && (forall|i: int| 0 <= i < b0.len() && !(op is Bit && op->Bit_0 == i) ==> #[trigger] b1[i] == b0[i])
    && (op is Sym ==> stepped(m0[op->Sym_0 as int], m1[op->Sym_0 as int], op->Sym_1 as int))
    && (op is Bit ==> bit_stepped(b0[op->Bit_0 as int], b1[op->Bit_0 as int], op->Bit_1 as int))
}
pub open spec fn all_wf(ms: Seq<ArithmeticModel>, bs: Seq<ArithmeticBitModel>) -> bool {
    (forall|i: int| 0 <= i < ms.len() ==> wf(#[trigger] ms[i])) && (forall|i: int| 0 <= i < bs.len() ==> bit_wf(#[trigger] bs[i]))
}
pub open spec fn same_bit(a: ArithmeticBitModel, b: ArithmeticBitModel) -> bool {
    a.bit_0_count == b.bit_0_count && a.bit_count == b.bit_count && a.bit_0_prob == b.bit_0_prob && a.bits_until_update == b.bits_until_update && a.update_cycle == b.update_cycle
}
// equal probabilities and counts; the encoder's model may have no lookup table
pub open spec fn in_step(m0: Seq<ArithmeticModel>, b0: Seq<ArithmeticBitModel>, m1: Seq<ArithmeticModel>, b1: Seq<ArithmeticBitModel>) -> bool {
    m0.len() == m1.len() && b0.len() == b1.len() && (forall|i: int| 0 <= i < m0.len() ==> same_shares(#[trigger] m0[i], m1[i])) && (forall|i: int| 0 <= i < b0.len() ==> same_bit(#[trigger] b0[i], b1[i]))
}
pub proof fn lemma_twins(a: ArithmeticModel, b: ArithmeticModel, a1: ArithmeticModel, b1: ArithmeticModel, s: int)
    requires wf(a), wf(b), same_shares(a, b), 0 <= s < a.symbols, stepped(a, a1, s), stepped(b, b1, s)
    ensures same_shares(a1, b1)
{ }
pub proof fn lemma_bit_twins(a: ArithmeticBitModel, b: ArithmeticBitModel, a1: ArithmeticBitModel, b1: ArithmeticBitModel, s: int)
    requires same_bit(a, b), bit_stepped(a, a1, s), bit_stepped(b, b1, s)
    ensures same_bit(a1, b1)
{ }
pub proof fn lemma_op_back(op: Op, a: Iv, ms: Seq<ArithmeticModel>, bs: Seq<ArithmeticBitModel>, f: Seq<u8>)
    requires working(a), all_wf(ms, bs), op_ok(op, ms, bs)
    ensures working(op_iv(op, a, ms, bs)), within(f, op_iv(op, a, ms, bs)) ==> within(f, a)
{
    lemma_p2_table();
    match op {
        Op::Sym(i, s) => { let m = ms[i as int]; lemma_sym(m, a.len, s as int); if within(f, op_iv(op, a, ms, bs)) { lemma_back(a, sym_x(m, a.len, s as int), sym_l(m, a.len, s as int), f); } }
        Op::Bit(i, s) => { let m = bs[i as int]; lemma_bit_share(m, a.len); if within(f, op_iv(op, a, ms, bs)) { lemma_back(a, bit_x(m, a.len, s as int), bit_l(m, a.len, s as int), f); } }
        Op::OneBit(s) => { lemma_raw_working(a, 1, s as int); if within(f, op_iv(op, a, ms, bs)) { lemma_raw_within(a, 1, s as int, f); } }
        Op::Bits(b, s) => { lemma_bits_working(a, b as int, s as int); if within(f, op_iv(op, a, ms, bs)) { lemma_bits_within(a, b as int, s as int, f); } }
        Op::Byte(s) => { lemma_raw_working(a, 8, s as int); if within(f, op_iv(op, a, ms, bs)) { lemma_raw_within(a, 8, s as int, f); } }
        Op::Short(s) => { lemma_raw_working(a, 16, s as int); if within(f, op_iv(op, a, ms, bs)) { lemma_raw_within(a, 16, s as int, f); } }
        Op::Int(s) => { lemma_int_is_bits(a, s as int); lemma_bits_working(a, 32, s as int); if within(f, op_iv(op, a, ms, bs)) { lemma_bits_within(a, 32, s as int, f); } }
        Op::Int64(s) => {
            let v = s as int; let m = narrow_int(a, v % 0x1_0000_0000);
            lemma_int_is_bits(a, v % 0x1_0000_0000); lemma_int_is_bits(m, v / 0x1_0000_0000);
            lemma_bits_working(a, 32, v % 0x1_0000_0000); lemma_bits_working(m, 32, v / 0x1_0000_0000);
            if within(f, op_iv(op, a, ms, bs)) { lemma_bits_within(m, 32, v / 0x1_0000_0000, f); lemma_bits_within(a, 32, v % 0x1_0000_0000, f); }
        }
    }
}
pub fn enc_op<W: Write>(e: &mut ArithmeticEncoder<W>, ms: &mut Vec<ArithmeticModel>, bs: &mut Vec<ArithmeticBitModel>, op: &Op) -> (r: io::Result<()>)
    requires old(e).steady(), all_wf(old(ms)@, old(bs)@), op_ok(*op, old(ms)@, old(bs)@)
    ensures r is Ok ==> final(e).steady() && final(e).start == old(e).start && all_wf(final(ms)@, final(bs)@) && op_models(*op, old(ms)@, old(bs)@, final(ms)@, final(bs)@),
        r is Ok && final(e).exact@ ==> old(e).exact@ && final(e).iv() == op_iv(*op, old(e).iv(), old(ms)@, old(bs)@)
{
    match op {
        Op::Sym(i, s) => e.encode_symbol(&mut ms[*i], *s),
        Op::Bit(i, s) => e.encode_bit(&mut bs[*i], *s),
        Op::OneBit(s) => e.write_bit(*s),
        Op::Bits(b, s) => e.write_bits(*b, *s),
        Op::Byte(s) => e.write_byte(*s),
        Op::Short(s) => e.write_short(*s),
        Op::Int(s) => e.write_int(*s),
        Op::Int64(s) => e.write_int64(*s),
    }
}
// decodes an item of the kind of op; the value inside op is not looked at
pub fn dec_op<R: Read>(d: &mut ArithmeticDecoder<R>, ms: &mut Vec<ArithmeticModel>, bs: &mut Vec<ArithmeticBitModel>, op: &Op, Ghost(a): Ghost<Iv>, Ghost(em): Ghost<Seq<ArithmeticModel>>, Ghost(eb): Ghost<Seq<ArithmeticBitModel>>, Ghost(f): Ghost<Seq<u8>>) -> (r: io::Result<u64>)
    requires old(d).steady(), all_wf(old(ms)@, old(bs)@), all_wf(em, eb), op_ok(*op, em, eb), in_step(em, eb, old(ms)@, old(bs)@), working(a),
        tracks(old(d).dv(), a, f), within(f, op_iv(*op, a, em, eb))
    ensures r is Ok, r->Ok_0 == op_val(*op), final(d).steady(), all_wf(final(ms)@, final(bs)@), op_models(*op, old(ms)@, old(bs)@, final(ms)@, final(bs)@),
        tracks(final(d).dv(), op_iv(*op, a, em, eb), f)
{
    proof { lemma_op_back(*op, a, em, eb, f); lemma_p2_table(); }
    match op {
        Op::Sym(i, s) => {
            proof {
                let me = em[*i as int]; let m = ms@[*i as int]; let v = *s as int;
                assert(same_shares(me, m)); lemma_sym(me, a.len, v); lemma_follow(d.dv(), a, sym_x(me, a.len, v), sym_l(me, a.len, v), f);
                assert forall|t: int| 0 <= t < m.symbols && #[trigger] sym_x(m, a.len, t) <= d.value < sym_x(m, a.len, t) + sym_l(m, a.len, t) implies t == v by { lemma_sym_unique(m, a.len, t, v, d.value as int); }
            }
            Ok(d.decode_symbol(&mut ms[*i])? as u64)
        }
        Op::Bit(i, s) => {
            proof {
                let me = eb[*i as int]; let m = bs@[*i as int]; let v = *s as int;
                assert(same_bit(me, m)); lemma_bit_share(me, a.len); lemma_follow(d.dv(), a, bit_x(me, a.len, v), bit_l(me, a.len, v), f);
            }
            Ok(d.decode_bit(&mut bs[*i])? as u64)
        }
        Op::OneBit(s) => { proof { lemma_raw_follow(d.dv(), a, 1, *s as int, f); } Ok(d.read_bit()? as u64) }
        Op::Bits(b, s) => { proof { lemma_bits_follow(d.dv(), a, *b as int, *s as int, f); } Ok(d.read_bits(*b)? as u64) }
        Op::Byte(s) => { proof { lemma_raw_follow(d.dv(), a, 8, *s as int, f); } Ok(d.read_byte()? as u64) }
        Op::Short(s) => { proof { lemma_raw_follow(d.dv(), a, 16, *s as int, f); } Ok(d.read_short()? as u64) }
        Op::Int(s) => { proof { lemma_int_is_bits(a, *s as int); lemma_bits_follow(d.dv(), a, 32, *s as int, f); } Ok(d.read_int()? as u64) }
        Op::Int64(s) => { proof { lemma_int64_follow(d.dv(), a, *s as int, f); } Ok(d.read_int_64()? as u64) }
    }
}
// the state of all models at every point of a history, and the intervals the encoder went through
pub open spec fn history(ops: Seq<Op>, iv: Seq<Iv>, mh: Seq<Seq<ArithmeticModel>>, bh: Seq<Seq<ArithmeticBitModel>>, k: int) -> bool {
    iv.len() == k + 1 && mh.len() == k + 1 && bh.len() == k + 1 && 0 <= k <= ops.len()
    && (forall|i: int| 0 <= i < k ==> op_ok(ops[i], #[trigger] mh[i], bh[i]) && iv[i + 1] == op_iv(ops[i], iv[i], mh[i], bh[i]) && op_models(ops[i], mh[i], bh[i], mh[i + 1], bh[i + 1]))
    && (forall|i: int| 0 <= i <= k ==> all_wf(#[trigger] mh[i], bh[i])) && (forall|i: int| 0 <= i <= k ==> working(#[trigger] iv[i]))
}
pub proof fn lemma_all_within(ops: Seq<Op>, iv: Seq<Iv>, mh: Seq<Seq<ArithmeticModel>>, bh: Seq<Seq<ArithmeticBitModel>>, k: int, f: Seq<u8>, i: int)
    requires history(ops, iv, mh, bh, k), within(f, iv[k]), 0 <= i <= k
    ensures within(f, iv[i])
    decreases k - i
{
    if i < k { lemma_all_within(ops, iv, mh, bh, k, f, i + 1); assert(op_ok(ops[i], mh[i], bh[i])); lemma_op_back(ops[i], iv[i], mh[i], bh[i], f); }
}
// symbols stay what they were, so whether an operation is possible does not change along a history
pub open spec fn op_shape(op: Op, ms: Seq<ArithmeticModel>, nb: int) -> bool {
    match op {
        Op::Sym(i, s) => i < ms.len() && s < ms[i as int].symbols,
        Op::Bit(i, s) => i < nb && s <= 1,
        Op::OneBit(s) => s <= 1,
        Op::Bits(b, s) => 1 <= b <= 32 && s < p2(b as int),
        _ => true,
    }
}

// what encoding the operations leaves behind, for any state of the models to start from
pub struct Past { pub iv: Seq<Iv>, pub mh: Seq<Seq<ArithmeticModel>>, pub bh: Seq<Seq<ArithmeticBitModel>> }
pub open spec fn encoded(ops: Seq<Op>, p: Past, f: Seq<u8>) -> bool {
    history(ops, p.iv, p.mh, p.bh, ops.len() as int) && p.iv[0] == (Iv { low: 0, len: AC_MAX_LENGTH as int, n: 0 })
    && within(f, p.iv[ops.len() as int]) && f.len() == p.iv[ops.len() as int].n + 4
    && nat256(f.take(4)) < AC_MAX_LENGTH
}

pub open spec fn start_iv() -> Iv { Iv { low: 0, len: AC_MAX_LENGTH as int, n: 0 } }
pub open spec fn past_ok(ops: Seq<Op>, p: Past, k: int, m0: Seq<ArithmeticModel>, b0: Seq<ArithmeticBitModel>, m: Seq<ArithmeticModel>, b: Seq<ArithmeticBitModel>, a: Iv) -> bool {
    history(ops, p.iv, p.mh, p.bh, k) && p.iv[0] == start_iv() && p.mh[0] == m0 && p.bh[0] == b0 && p.mh[k] == m && p.bh[k] == b && p.iv[k] == a
}
pub proof fn lemma_begin(ops: Seq<Op>, m: Seq<ArithmeticModel>, b: Seq<ArithmeticBitModel>)
    requires all_wf(m, b)
    ensures past_ok(ops, Past { iv: seq![start_iv()], mh: seq![m], bh: seq![b] }, 0, m, b, m, b, start_iv())
{ }
pub open spec fn grown(p: Past, m: Seq<ArithmeticModel>, b: Seq<ArithmeticBitModel>, a: Iv) -> Past { Past { iv: p.iv.push(a), mh: p.mh.push(m), bh: p.bh.push(b) } }
pub proof fn lemma_extend(ops: Seq<Op>, p: Past, k: int, m0: Seq<ArithmeticModel>, b0: Seq<ArithmeticBitModel>, m: Seq<ArithmeticModel>, b: Seq<ArithmeticBitModel>, a: Iv, m1: Seq<ArithmeticModel>, b1: Seq<ArithmeticBitModel>)
    requires past_ok(ops, p, k, m0, b0, m, b, a), 0 <= k < ops.len(), op_ok(ops[k], m, b), op_models(ops[k], m, b, m1, b1), all_wf(m1, b1)
    ensures past_ok(ops, grown(p, m1, b1, op_iv(ops[k], a, m, b)), k + 1, m0, b0, m1, b1, op_iv(ops[k], a, m, b))
{
    let q = grown(p, m1, b1, op_iv(ops[k], a, m, b));
    assert(all_wf(p.mh[k], p.bh[k])); assert(working(p.iv[k]));
    lemma_op_back(ops[k], a, m, b, Seq::<u8>::empty());
    assert forall|j: int| 0 <= j < k + 1 implies op_ok(ops[j], #[trigger] q.mh[j], q.bh[j]) && q.iv[j + 1] == op_iv(ops[j], q.iv[j], q.mh[j], q.bh[j]) && op_models(ops[j], q.mh[j], q.bh[j], q.mh[j + 1], q.bh[j + 1]) by {
        if j < k { assert(op_ok(ops[j], p.mh[j], p.bh[j])); }
    }
    assert forall|j: int| 0 <= j <= k + 1 implies all_wf(#[trigger] q.mh[j], q.bh[j]) by { if j <= k { assert(all_wf(p.mh[j], p.bh[j])); } }
    assert forall|j: int| 0 <= j <= k + 1 implies working(#[trigger] q.iv[j]) by { if j <= k { assert(working(p.iv[j])); } }
}
pub proof fn lemma_shape(op: Op, m0: Seq<ArithmeticModel>, m: Seq<ArithmeticModel>, b: Seq<ArithmeticBitModel>, m1: Seq<ArithmeticModel>, b1: Seq<ArithmeticBitModel>)
    requires op_ok(op, m, b), op_models(op, m, b, m1, b1), alike(m0, m)
    ensures alike(m0, m1)
{ assert forall|j: int| 0 <= j < m1.len() implies m0[j].symbols == (#[trigger] m1[j]).symbols by { assert(m0[j].symbols == m[j].symbols); } }
pub open spec fn alike(m0: Seq<ArithmeticModel>, m: Seq<ArithmeticModel>) -> bool { m0.len() == m.len() && (forall|j: int| 0 <= j < m.len() ==> m0[j].symbols == (#[trigger] m[j]).symbols) }
// the bytes delivered at the end are a number of the last interval
pub proof fn lemma_end(ops: Seq<Op>, p: Past, m0: Seq<ArithmeticModel>, b0: Seq<ArithmeticBitModel>, m: Seq<ArithmeticModel>, b: Seq<ArithmeticBitModel>, a: Iv, f: Seq<u8>)
    requires past_ok(ops, p, ops.len() as int, m0, b0, m, b, a), f.len() == a.n + 4, a.low < nat256(f) < a.low + a.len
    ensures encoded(ops, p, f)
{
    hide(op_iv); hide(op_models); hide(all_wf); hide(op_ok); hide(nat256); hide(pow256);
    assert(f.take(a.n + 4) =~= f);
    assert(working(p.iv[ops.len() as int]));
    lemma_all_within(ops, p.iv, p.mh, p.bh, ops.len() as int, f, 0);
    assert(within(f, start_iv()));
    assert(f.take(start_iv().n + 4) == f.take(4));
}

pub fn encode_all<W: Write>(sink: W, ops: &Vec<Op>, em: &mut Vec<ArithmeticModel>, eb: &mut Vec<ArithmeticBitModel>) -> (r: io::Result<(W, Ghost<Past>, Ghost<bool>)>)
    requires all_wf(old(em)@, old(eb)@), forall|i: int| 0 <= i < ops@.len() ==> op_shape(#[trigger] ops@[i], old(em)@, old(eb)@.len() as int),
    ensures r is Ok && r->Ok_0.2@ ==> encoded(ops@, r->Ok_0.1@, r->Ok_0.0.sunk().skip(sink.sunk().len() as int))
        && r->Ok_0.1@.mh[0] == old(em)@ && r->Ok_0.1@.bh[0] == old(eb)@ && r->Ok_0.1@.mh[ops@.len() as int] == final(em)@ && r->Ok_0.1@.bh[ops@.len() as int] == final(eb)@
{
    let ghost (em0, eb0) = (em@, eb@);
    let mut e = ArithmeticEncoder::new(sink);
    let ghost mut p = Past { iv: seq![start_iv()], mh: seq![em@], bh: seq![eb@] };
    proof { lemma_begin(ops@, em@, eb@); }
    let mut i: usize = 0;
    while i < ops.len()
        invariant 0 <= i <= ops@.len(), e.steady(), e.start@ == sink.sunk().len(), e.exact@ ==> past_ok(ops@, p, i as int, em0, eb0, em@, eb@, e.iv()),
            all_wf(em@, eb@), alike(em0, em@), eb0.len() == eb@.len(),
            forall|i: int| 0 <= i < ops@.len() ==> op_shape(#[trigger] ops@[i], em0, eb0.len() as int),
        decreases ops@.len() - i
    {
        let ghost (m, b, a) = (em@, eb@, e.iv());
        proof { assert(op_shape(ops@[i as int], em0, eb0.len() as int)); assert(op_ok(ops@[i as int], em@, eb@)); }
        enc_op(&mut e, em, eb, &ops[i])?;
        proof {
            lemma_shape(ops@[i as int], em0, m, b, em@, eb@);
            if e.exact@ { lemma_extend(ops@, p, i as int, em0, eb0, m, b, a, em@, eb@); p = grown(p, em@, eb@, e.iv()); }
        }
        i += 1;
    }
    let ghost a = e.iv();
    e.done()?;
    let exact: Ghost<bool> = Ghost(e.exact@);
    proof { if exact@ { lemma_end(ops@, p, em0, eb0, em@, eb@, a, e.out_stream.sunk().skip(sink.sunk().len() as int)); } }
    let w = e.into_inner();
    Ok((w, Ghost(p), exact))
}

// Property C02: whatever was encoded is decoded again, for every history of calls, every set of models and every
// reader that delivers the bytes; the decoder's models are like the encoder's except for the lookup tables.
pub fn decode_all<R: Read>(src: R, ops: &Vec<Op>, dm: &mut Vec<ArithmeticModel>, db: &mut Vec<ArithmeticBitModel>, Ghost(p): Ghost<Past>, Ghost(f): Ghost<Seq<u8>>) -> (r: io::Result<Vec<u64>>)
    requires encoded(ops@, p, f), src.left() == f, all_wf(old(dm)@, old(db)@), in_step(p.mh[0], p.bh[0], old(dm)@, old(db)@)
    ensures r is Ok, r->Ok_0@.len() == ops@.len(), forall|i: int| 0 <= i < ops@.len() ==> #[trigger] r->Ok_0@[i] == op_val(ops@[i]),
        in_step(p.mh[ops@.len() as int], p.bh[ops@.len() as int], final(dm)@, final(db)@)
{
    let ghost (iv, mh, bh) = (p.iv, p.mh, p.bh);
    let mut out: Vec<u64> = Vec::new();
    let mut d = ArithmeticDecoder::new(src);
    d.read_init_bytes()?;
    proof {
        lemma_all_within(ops@, iv, mh, bh, ops@.len() as int, f, 0);
        assert(tracks(d.dv(), iv[0], f));
        assert(mh[0] == p.mh[0]);
    }
    let mut i: usize = 0;
    while i < ops.len()
        invariant 0 <= i <= ops@.len(), out@.len() == i, iv == p.iv, mh == p.mh, bh == p.bh,
            history(ops@, iv, mh, bh, ops@.len() as int), within(f, iv[ops@.len() as int]), d.steady(), tracks(d.dv(), iv[i as int], f),
            all_wf(dm@, db@), in_step(mh[i as int], bh[i as int], dm@, db@),
            forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == op_val(ops@[j]),
        decreases ops@.len() - i
    {
        proof { lemma_all_within(ops@, iv, mh, bh, ops@.len() as int, f, i + 1); assert(op_ok(ops@[i as int], mh[i as int], bh[i as int])); assert(all_wf(mh[i as int], bh[i as int])); assert(working(iv[i as int])); }
        let ghost (m0, b0) = (dm@, db@);
        let v = dec_op(&mut d, dm, db, &ops[i], Ghost(iv[i as int]), Ghost(mh[i as int]), Ghost(bh[i as int]), Ghost(f))?;
        out.push(v);
        proof {
            let k = i as int;
            assert(op_models(ops@[k], mh[k], bh[k], mh[k + 1], bh[k + 1]));
            assert forall|j: int| 0 <= j < dm@.len() implies same_shares(#[trigger] mh[k + 1][j], dm@[j]) by {
                assert(same_shares(mh[k][j], m0[j]));
                if ops@[k] is Sym && ops@[k]->Sym_0 == j { lemma_twins(mh[k][j], m0[j], mh[k + 1][j], dm@[j], ops@[k]->Sym_1 as int); }
            }
            assert forall|j: int| 0 <= j < db@.len() implies same_bit(#[trigger] bh[k + 1][j], db@[j]) by {
                assert(same_bit(bh[k][j], b0[j]));
                if ops@[k] is Bit && ops@[k]->Bit_0 == j { lemma_bit_twins(bh[k][j], b0[j], bh[k + 1][j], db@[j], ops@[k]->Bit_1 as int); }
            }
        }
        i += 1;
    }
    Ok(out)
}
