// ================================================================ numbers written as digits
pub open spec fn nat256(d: Seq<u8>) -> int decreases d.len() {
    if d.len() == 0 { 0 } else { nat256(d.drop_last()) * 256 + d.last() as int }
}
pub open spec fn pow256(k: int) -> int decreases k { if k <= 0 { 1 } else { 256 * pow256(k - 1) } }
pub proof fn lemma_pow(k: int)
    ensures pow256(k) >= 1
    decreases k
{ if k > 0 { lemma_pow(k - 1); } }
pub proof fn lemma_nat_bounds(d: Seq<u8>)
    ensures 0 <= nat256(d) < pow256(d.len() as int)
    decreases d.len()
{ if d.len() > 0 { lemma_nat_bounds(d.drop_last()); } }
pub proof fn lemma_nat_push(d: Seq<u8>, x: u8)
    ensures nat256(d.push(x)) == nat256(d) * 256 + x
{ assert(d.push(x).drop_last() =~= d); }
pub proof fn lemma_nat_zeros(z: Seq<u8>)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0
    ensures nat256(z) == 0
    decreases z.len()
{ if z.len() > 0 { lemma_nat_zeros(z.drop_last()); } }
pub proof fn lemma_nat_append(d: Seq<u8>, z: Seq<u8>)
    ensures nat256(d + z) == nat256(d) * pow256(z.len() as int) + nat256(z)
    decreases z.len()
{
    if z.len() == 0 { assert(d + z =~= d); assert(pow256(0) == 1); }
    else {
        lemma_nat_append(d, z.drop_last());
        assert((d + z).drop_last() =~= d + z.drop_last());
        let a = nat256(d); let p = pow256(z.len() - 1);
        assert(a * p * 256 == a * (256 * p)) by(nonlinear_arith);
    }
}
// adding one to a number whose last non-255 digit is at position q
pub proof fn lemma_nat_carry(d: Seq<u8>, e: Seq<u8>, q: int)
    requires 0 <= q < d.len(), e.len() == d.len(), d[q] < 255, e[q] == d[q] + 1,
        forall|i: int| 0 <= i < q ==> e[i] == d[i],
        forall|i: int| q < i < d.len() ==> d[i] == 255 && e[i] == 0,
    ensures nat256(e) == nat256(d) + 1
    decreases d.len()
{
    if q == d.len() - 1 { assert(d.drop_last() =~= e.drop_last()); }
    else { lemma_nat_carry(d.drop_last(), e.drop_last(), q); assert(d.last() == 255 && e.last() == 0); }
}
// a number that is not the largest of its length has a digit below 255
pub proof fn lemma_nat_room(d: Seq<u8>)
    requires nat256(d) + 1 < pow256(d.len() as int)
    ensures exists|q: int| 0 <= q < d.len() && #[trigger] d[q] < 255
    decreases d.len()
{
    if d.len() > 0 {
        if d.last() == 255 {
            lemma_nat_room(d.drop_last());
            let q = choose|q: int| 0 <= q < d.drop_last().len() && #[trigger] d.drop_last()[q] < 255;
            assert(d[q] < 255);
        } else { assert(d[d.len() - 1] < 255); }
    }
}

// ================================================================ encoder
//@const decoders.rs AC_MAX_LENGTH
//@const decoders.rs AC_MIN_LENGTH
//@const encoders.rs AC_BUFFER_SIZE
//@struct encoders.rs ArithmeticEncoder pub start: Ghost<int>, pub exact: Ghost<bool>,

pub open spec fn N() -> int { 4096 }
// an interval of the numbers with n + 4 digits
pub struct Iv { pub low: int, pub len: int, pub n: int }
pub open spec fn shifts(l: int) -> int { if l >= 0x100_0000 { 0 } else if l >= 0x1_0000 { 1 } else if l >= 0x100 { 2 } else { 3 } }
// the part [x, x + l) of an interval, with as many digits more as bring it back to working length
pub open spec fn times(x: int, k: int) -> int { if k <= 0 { x } else if k == 1 { x * 256 } else if k == 2 { x * 65536 } else { x * 16777216 } }
pub proof fn lemma_times(x: int, k: int)
    requires 0 <= k <= 3
    ensures times(x, k) == x * pow256(k)
{ lemma_pows(); }
pub open spec fn narrow(a: Iv, x: int, l: int) -> Iv {
    Iv { low: times(a.low + x, shifts(l)), len: times(l, shifts(l)), n: a.n + shifts(l) }
}
pub proof fn lemma_pows()
    ensures pow256(0) == 1, pow256(1) == 256, pow256(2) == 65536, pow256(3) == 16777216, pow256(4) == 0x1_0000_0000
{ reveal_with_fuel(pow256, 6); }
// parts of intervals inside [0, 1) are inside [0, 1)
pub proof fn lemma_narrow_inside(a: Iv, x: int, l: int)
    requires 0 <= x, 1 <= l, x + l <= a.len, a.low + a.len <= pow256(a.n) * 0x1_0000_0000, a.n >= 0
    ensures ({ let b = narrow(a, x, l); b.low + b.len <= pow256(b.n) * 0x1_0000_0000 })
{
    lemma_pow_add(a.n, shifts(l));
    let k = pow256(shifts(l)); let p = pow256(a.n);
    lemma_times(a.low + x, shifts(l)); lemma_times(l, shifts(l));
    lemma_pow(shifts(l));
    assert((a.low + x) * k + l * k == (a.low + x + l) * k) by(nonlinear_arith);
    assert((a.low + x + l) * k <= (p * 0x1_0000_0000) * k) by(nonlinear_arith) requires a.low + x + l <= p * 0x1_0000_0000, k >= 1;
    assert((p * 0x1_0000_0000) * k == (p * k) * 0x1_0000_0000) by(nonlinear_arith);
}
pub proof fn lemma_pow_add(a: int, b: int)
    requires a >= 0, b >= 0
    ensures pow256(a + b) == pow256(a) * pow256(b)
    decreases b
{
    if b > 0 { lemma_pow_add(a, b - 1); assert(256 * (pow256(a) * pow256(b - 1)) == pow256(a) * (256 * pow256(b - 1))) by(nonlinear_arith); }
    else { assert(pow256(0) == 1); }
}
// digits not delivered yet, oldest first
pub open spec fn pending(buf: Seq<u8>, out: int, end: int) -> Seq<u8> {
    if end == 2 * N() { buf.subrange(0, out) } else { buf.subrange(N(), 2 * N()) + buf.subrange(0, out) }
}

// ================================================================ what coding one item does
pub open spec fn counted(a: ArithmeticModel, s: int) -> Seq<u32> { a.symbol_count@.update(s, (a.symbol_count@[s] + 1) as u32) }
// the model after symbol s: it depends on the probabilities and counts before only
pub open spec fn stepped(a: ArithmeticModel, b: ArithmeticModel, s: int) -> bool {
    let c = counted(a, s);
    b.symbols == a.symbols && b.compress == a.compress &&
    if a.symbols_until_update > 1 {
        b.symbol_count@ == c && b.symbols_until_update == a.symbols_until_update - 1 && b.distribution@ == a.distribution@
        && b.total_count == a.total_count && b.update_cycle == a.update_cycle
    } else {
        b.symbol_count@ == halved(c, a.total_count + a.update_cycle) && b.distribution@ == shares_of(b.symbol_count@)
        && b.total_count as int == sum_to(b.symbol_count@, a.symbols as int)
        && b.update_cycle as int == next_cycle(a.update_cycle as int, a.symbols as int) && b.symbols_until_update == b.update_cycle
    }
}
pub open spec fn bit_stepped(a: ArithmeticBitModel, b: ArithmeticBitModel, s: int) -> bool {
    let c0 = a.bit_0_count + (if s == 0 { 1int } else { 0int });
    if a.bits_until_update > 1 {
        b.bit_0_count == c0 && b.bit_count == a.bit_count && b.bit_0_prob == a.bit_0_prob && b.bits_until_update == a.bits_until_update - 1 && b.update_cycle == a.update_cycle
    } else {
        let t = a.bit_count + a.update_cycle;
        b.bit_0_count == bit_c0(c0, t) && b.bit_count == bit_c(c0, t) && b.bit_0_prob == (b.bit_0_count * (0x8000_0000int / b.bit_count as int)) / 0x40000
        && b.update_cycle == (if 5 * a.update_cycle / 4 > 64 { 64 } else { 5 * a.update_cycle / 4 }) && b.bits_until_update == b.update_cycle
    }
}
// the share of a symbol in an interval of length len: [sym_x, sym_x + sym_l)
pub open spec fn sym_x(m: ArithmeticModel, len: int, s: int) -> int { m.distribution@[s] * (len / 32768) }
pub open spec fn sym_l(m: ArithmeticModel, len: int, s: int) -> int {
    if s == m.symbols - 1 { len - sym_x(m, len, s) } else { m.distribution@[s + 1] * (len / 32768) - sym_x(m, len, s) }
}
pub open spec fn bit_x(m: ArithmeticBitModel, len: int, s: int) -> int { if s == 0 { 0 } else { m.bit_0_prob * (len / 8192) } }
pub open spec fn bit_l(m: ArithmeticBitModel, len: int, s: int) -> int { if s == 0 { m.bit_0_prob * (len / 8192) } else { len - m.bit_0_prob * (len / 8192) } }
pub open spec fn raw_x(len: int, bits: int, v: int) -> int { v * (len / p2(bits)) }
pub open spec fn raw_l(len: int, bits: int) -> int { len / p2(bits) }
pub open spec fn narrow_raw(a: Iv, bits: int, v: int) -> Iv { narrow(a, raw_x(a.len, bits, v), raw_l(a.len, bits)) }
pub open spec fn narrow_bits(a: Iv, bits: int, v: int) -> Iv {
    if bits > 19 { narrow_raw(narrow_raw(a, 16, v % 65536), bits - 16, v / 65536) } else { narrow_raw(a, bits, v) }
}
pub open spec fn narrow_int(a: Iv, v: int) -> Iv { narrow_raw(narrow_raw(a, 16, v % 65536), 16, v / 65536) }
pub open spec fn narrow_int64(a: Iv, v: int) -> Iv { narrow_int(narrow_int(a, v % 0x1_0000_0000), v / 0x1_0000_0000) }

pub proof fn lemma_sym(m: ArithmeticModel, len: int, s: int)
    requires static_ok(m), shares_ok(m.distribution@, m.symbols as int), 0x100_0000 <= len < 0x1_0000_0000, 0 <= s < m.symbols
    ensures 0 <= sym_x(m, len, s), 1 <= sym_l(m, len, s), sym_x(m, len, s) + sym_l(m, len, s) <= len, m.distribution@[s] < 32768,
        s + 1 < m.symbols ==> m.distribution@[s] < m.distribution@[s + 1] < 32768,
        s + 1 < m.symbols ==> m.distribution@[s + 1] * (len / 32768) < len,
{
    let n = m.symbols as int; let d = m.distribution@; let u = len / 32768;
    assert(512 <= u && u * 32768 <= len);
    if s < n - 1 { assert(d[s] < d[n - 1]); assert(d[s] < d[s + 1]); if s + 1 < n - 1 { assert(d[s + 1] < d[n - 1]); } }
    assert(0 <= d[s] * u) by(nonlinear_arith) requires d[s] >= 0, u >= 0;
    if s == n - 1 { assert(d[s] * u + u <= 32768 * u) by(nonlinear_arith) requires d[s] + 1 <= 32768, u >= 0; }
    else {
        assert(d[s] * u + u <= d[s + 1] * u) by(nonlinear_arith) requires d[s] + 1 <= d[s + 1], u >= 0;
        assert(d[s + 1] * u + u <= 32768 * u) by(nonlinear_arith) requires d[s + 1] + 1 <= 32768, u >= 0;
    }
}
pub proof fn lemma_bit_share(m: ArithmeticBitModel, len: int)
    requires bit_wf(m), 0x100_0000 <= len < 0x1_0000_0000
    ensures 1 <= m.bit_0_prob * (len / 8192) < len
{
    let u = len / 8192; let p = m.bit_0_prob as int;
    assert(1 <= p * u && p * u + u <= 8192 * u) by(nonlinear_arith) requires 1 <= p <= 8191, u >= 1;
}
pub proof fn lemma_p2_table()
    ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024,
        p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536, p2(17) == 131072, p2(18) == 262144, p2(19) == 524288
{ reveal_with_fuel(p2, 21); }
pub proof fn lemma_shift(x: u32, b: u32)
    requires 0 <= b <= 19
    ensures (x >> b) as int == x as int / p2(b as int), p2(b as int) >= 1, p2(b as int) <= 0x80000
{
    lemma_p2_table();
    assert((x >> 0u32) == x && (x >> 1u32) == x / 2 && (x >> 2u32) == x / 4 && (x >> 3u32) == x / 8 && (x >> 4u32) == x / 16 && (x >> 5u32) == x / 32 && (x >> 6u32) == x / 64
        && (x >> 7u32) == x / 128 && (x >> 8u32) == x / 256 && (x >> 9u32) == x / 512) by(bit_vector);
    assert((x >> 10u32) == x / 1024 && (x >> 11u32) == x / 2048 && (x >> 12u32) == x / 4096 && (x >> 13u32) == x / 8192 && (x >> 14u32) == x / 16384 && (x >> 15u32) == x / 32768
        && (x >> 16u32) == x / 65536 && (x >> 17u32) == x / 131072 && (x >> 18u32) == x / 262144 && (x >> 19u32) == x / 524288) by(bit_vector);
    assert(b == 0 || b == 1 || b == 2 || b == 3 || b == 4 || b == 5 || b == 6 || b == 7 || b == 8 || b == 9 || b == 10 || b == 11 || b == 12 || b == 13 || b == 14 || b == 15 || b == 16 || b == 17 || b == 18 || b == 19);
}
pub proof fn lemma_raw(len: int, bits: int, v: int)
    requires 0x100_0000 <= len < 0x1_0000_0000, 1 <= bits <= 19, 0 <= v < p2(bits)
    ensures 0 <= raw_x(len, bits, v), 32 <= raw_l(len, bits), raw_x(len, bits, v) + raw_l(len, bits) <= len
{
    lemma_shift(0, bits as u32);
    let p = p2(bits); let u = len / p;
    assert(32 <= u && u * p <= len) by(nonlinear_arith) requires u == len / p, 1 <= p <= 0x80000, len >= 0x100_0000;
    assert(0 <= v * u && v * u + u <= u * p) by(nonlinear_arith) requires 0 <= v, v + 1 <= p, u >= 0;
}
pub proof fn lemma_count(m: ArithmeticModel, s: int)
    requires wf(m), 0 <= s < m.symbols
    ensures m.symbol_count@[s] < 60000, all_pos(counted(m, s)), sum_to(counted(m, s), m.symbols as int) == sum_to(m.symbol_count@, m.symbols as int) + 1
{
    let n = m.symbols as int;
    sum_bounds(m.symbol_count@, 0, s); sum_bounds(m.symbol_count@, s + 1, n);
    assert(sum_to(m.symbol_count@, s + 1) == sum_to(m.symbol_count@, s) + m.symbol_count@[s]);
    sum_inc(m.symbol_count@, s, n);
}

impl<T: Write> ArithmeticEncoder<T> {
    // the buffer part of the state is sound (out_byte may equal end_byte only between a digit and the flush it triggers)
    pub open spec fn ring(&self) -> bool {
        self.out_buffer@.len() == 2 * N() && (self.end_byte == N() || self.end_byte == 2 * N()) && self.out_byte <= self.end_byte
    }
    pub open spec fn pend(&self) -> Seq<u8> { pending(self.out_buffer@, self.out_byte as int, self.end_byte as int) }
    // all digits produced since the encoder was created or reset
    pub open spec fn digits(&self) -> Seq<u8> { self.out_stream.sunk().skip(self.start@) + self.pend() }
    // left end of the interval, in units of 256^-(digits + 4)
    pub open spec fn low(&self) -> int { nat256(self.digits()) * 0x1_0000_0000 + self.base }
    pub open spec fn steady(&self) -> bool {
        self.ring() && self.out_byte < self.end_byte && self.length >= AC_MIN_LENGTH && 0 <= self.start@ <= self.out_stream.sunk().len()
        && self.deep() && (self.exact@ ==> self.inside())
    }
    // once something was delivered, at least half of the ring is still there for a carry
    pub open spec fn deep(&self) -> bool { self.out_stream.sunk().len() > self.start@ ==> self.end_byte == N() || self.out_byte >= N() }
    pub open spec fn inside(&self) -> bool { self.low() + self.length <= pow256(self.digits().len() as int) * 0x1_0000_0000 }
    pub open spec fn iv(&self) -> Iv { Iv { low: self.low(), len: self.length as int, n: self.digits().len() as int } }
    // safe to go on with, whatever was or was not delivered
    pub open spec fn safe(&self) -> bool { self.ring() && self.out_byte < self.end_byte }
    // a carry out of base finds a digit below 255 before it leaves the digits that are still in the buffer
    pub open spec fn carry_fits(&self) -> bool { exists|q: int| 0 <= q < self.pend().len() && #[trigger] self.pend()[q] < 255 }
}
impl<T: Write> ArithmeticEncoder<T> {
//@fn encoders.rs ArithmeticEncoder::new
//@ret r
//@replace
            out_stream,
        }
=>
            start: Ghost(out_stream.sunk().len() as int), exact: Ghost(true), out_stream,
        }
//@sig
        ensures r.steady(), r.digits() == Seq::<u8>::empty(), r.base == 0, r.length == AC_MAX_LENGTH, r.out_stream == out_stream, r.low() == 0,
            r.start@ == out_stream.sunk().len(), r.exact@, r.inside()
//@before 0 Self {
        proof { assert(out_stream.sunk().skip(out_stream.sunk().len() as int) + out_buffer@.subrange(0, 0) =~= Seq::<u8>::empty()); }
//@endfn
//@fn encoders.rs ArithmeticEncoder::into_inner
//@ret r
//@sig
        ensures r == self.out_stream
//@endfn
//@fn encoders.rs ArithmeticEncoder::end_of_buffer
//@ret r
//@sig
        ensures r == self.out_buffer@.len()
//@endfn
//@fn encoders.rs ArithmeticEncoder::reset
//@sig
        requires old(self).ring()
        ensures final(self).steady(), final(self).digits() == Seq::<u8>::empty(), final(self).base == 0, final(self).length == AC_MAX_LENGTH,
            final(self).low() == 0, final(self).exact@, final(self).inside(), final(self).out_stream == old(self).out_stream,
            // nothing of what was encoded before is left: byte for byte the state of a new encoder
            final(self).out_buffer@ == Seq::new(2 * 4096, |i: int| 0u8), final(self).out_byte == 0, final(self).end_byte == 2 * 4096,
//@end_
        proof { self.start@ = self.out_stream.sunk().len() as int; self.exact@ = true; }
        proof {
            assert(self.out_stream.sunk().skip(self.start@) + self.out_buffer@.subrange(0, 0) =~= Seq::<u8>::empty());
            assert(self.out_buffer@ =~= Seq::new(2 * 4096, |i: int| 0u8));
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::propagate_carry
//@sig
        requires old(self).ring(), old(self).out_byte < old(self).end_byte, old(self).deep(), 0 <= old(self).start@ <= old(self).out_stream.sunk().len(),
            // the number the digits stand for can grow by one without an additional digit
            old(self).exact@ ==> nat256(old(self).digits()) + 1 < pow256(old(self).digits().len() as int)
        ensures
            // the result is exact, unless the carry would have to reach beyond at least 4096 digits that are all 255
            old(self).exact@ && !final(self).exact@ ==> old(self).pend().len() >= 4096 && (forall|q: int| 0 <= q < old(self).pend().len() ==> old(self).pend()[q] == 255), final(self).ring(), final(self).out_byte == old(self).out_byte, final(self).end_byte == old(self).end_byte,
            final(self).base == old(self).base, final(self).length == old(self).length, final(self).out_stream == old(self).out_stream, final(self).start == old(self).start,
            final(self).exact@ == (old(self).exact@ && old(self).carry_fits()),
            old(self).carry_fits() ==> nat256(final(self).digits()) == nat256(old(self).digits()) + 1,
            final(self).digits().len() == old(self).digits().len(),
//@start
        proof {
            if self.exact@ && !self.carry_fits() {
                if self.out_stream.sunk().len() == self.start@ {
                    assert(self.digits() =~= self.pend());
                    lemma_nat_room(self.pend());
                }
            }
            self.exact@ = self.exact@ && self.carry_fits();
        }
        let ghost b0 = self.out_buffer@;
        let ghost st = if self.out_byte == 0 { 2 * N() - 1 } else { self.out_byte - 1 };
        let ghost mut j: int = 0; let ghost mut b1 = b0; let ghost mut pj: int = 0;
//@loop 0
            invariant self.ring(), self.out_byte == old(self).out_byte, self.end_byte == old(self).end_byte, self.out_byte < self.end_byte,
                self.base == old(self).base, self.length == old(self).length, self.out_stream == old(self).out_stream, self.start == old(self).start,
                self.exact@ == (old(self).exact@ && old(self).carry_fits()), b0 == old(self).out_buffer@, b0.len() == 2 * N(),
                st == (if self.out_byte == 0 { 2 * N() - 1 } else { self.out_byte - 1 }),
                0 <= j <= 2 * N(), p < 2 * N(), p as int == back(st, j),
                forall|i: int| 0 <= i < j ==> self.out_buffer@[#[trigger] back(st, i)] == 0,
                forall|i: int| 0 <= i < j ==> b0[#[trigger] back(st, i)] == 255,
                forall|i: int| j <= i < 2 * N() ==> self.out_buffer@[#[trigger] back(st, i)] == b0[back(st, i)],
            decreases 2 * N() - j
//@body 0
                proof {
                    if j == 2 * N() { assert(back(st, j) == back(st, 0)); assert(self.out_buffer@[back(st, 0)] == 0); assert(false); }
                    assert(forall|i: int| 0 <= i < 2 * N() && i != j ==> #[trigger] back(st, i) != back(st, j));
                }
//@tail 0
                proof { j = j + 1; }
//@after 0
            proof {
                if j == 2 * N() { assert(back(st, j) == back(st, 0)); assert(self.out_buffer@[back(st, 0)] == 0); }
                b1 = self.out_buffer@; pj = p as int;
            }
//@end_
        proof {
            if old(self).carry_fits() {
                if j < 2 * N() { assert(b1[back(st, j)] == b0[back(st, j)]); }
                let e0 = old(self).pend(); let e1 = self.pend();
                let q0 = choose|q: int| 0 <= q < e0.len() && #[trigger] e0[q] < 255;
                // where the ring index of pending digit q is
                let m = e0.len() as int;
                assert(forall|q: int| 0 <= q < m ==> e0[q] == b0[#[trigger] back(st, m - 1 - q)]);
                assert(forall|q: int| 0 <= q < m ==> e1[q] == self.out_buffer@[#[trigger] back(st, m - 1 - q)]);
                assert(m <= 2 * N());
                assert(j <= m - 1 - q0) by { if j > m - 1 - q0 { assert(b0[back(st, m - 1 - q0)] == 255); } }
                let q = m - 1 - j;
                assert(forall|i: int| 0 <= i < 2 * N() && i != j ==> #[trigger] back(st, i) != back(st, j));
                assert(back(st, m - 1 - q) == pj);
                assert(self.out_buffer@ == b1.update(pj, (b1[pj] + 1) as u8));
                assert forall|i: int| 0 <= i < q implies e1[i] == e0[i] by { assert(back(st, m - 1 - i) != pj); }
                assert forall|i: int| q < i < m implies e0[i] == 255 && e1[i] == 0 by { assert(back(st, m - 1 - i) != pj); }
                let pre = self.out_stream.sunk().skip(self.start@);
                lemma_nat_carry(old(self).digits(), self.digits(), pre.len() + q);
            }
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::manage_out_buffer
//@ret r
//@sig
        requires old(self).ring(), old(self).out_byte == old(self).end_byte
        ensures final(self).safe(), final(self).base == old(self).base, final(self).length == old(self).length, final(self).exact == old(self).exact, final(self).start == old(self).start,
            r is Ok && 0 <= old(self).start@ <= old(self).out_stream.sunk().len() ==> final(self).digits() == old(self).digits() && old(self).start@ <= final(self).out_stream.sunk().len() && final(self).deep(),
//@end_
//@before 0 Ok(())
        proof {
            let s0 = old(self).out_stream.sunk(); let s1 = self.out_stream.sunk();
            if 0 <= self.start@ <= s0.len() {
                assert(self.digits() =~= old(self).digits());
            }
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::renorm_enc_interval
//@ret r
//@sig
        requires old(self).safe(), 1 <= old(self).length < AC_MIN_LENGTH, 0 <= old(self).start@ <= old(self).out_stream.sunk().len(), old(self).deep(), old(self).exact@ ==> old(self).inside()
        ensures final(self).safe(), final(self).start == old(self).start, final(self).exact == old(self).exact,
            r is Ok ==> final(self).steady() && final(self).iv() == narrow(old(self).iv(), 0, old(self).length as int),
//@start
        let ghost mut k: int = 0; let ghost mut e0 = *self;
        proof { lemma_pows(); }
//@loop 0
            invariant_except_break self.length < AC_MIN_LENGTH, 0 <= k < shifts(old(self).length as int),
            invariant self.safe(), self.deep(), 0 <= self.start@ <= self.out_stream.sunk().len(), self.start == old(self).start, self.exact == old(self).exact,
                1 <= old(self).length < AC_MIN_LENGTH, 0 <= old(self).start@,
                0 <= k <= shifts(old(self).length as int),
                self.digits().len() == old(self).digits().len() + k,
                self.length == times(old(self).length as int, k),
                self.low() == times(old(self).low(), k),
            ensures k == shifts(old(self).length as int), self.length >= AC_MIN_LENGTH,
            decreases 4 - k
//@after 0
        proof { assert(self.iv() == narrow(old(self).iv(), 0, old(self).length as int)); if self.exact@ { lemma_narrow_inside(old(self).iv(), 0, old(self).length as int); } }
//@body 0
                proof { e0 = *self; }
//@behind 0 self.out_byte = self.out_byte.wrapping_add(1)
            proof {
                assert(self.pend() =~= e0.pend().push((self.base >> 24) as u8));
                assert(self.digits() =~= e0.digits().push((self.base >> 24) as u8));
                lemma_nat_push(e0.digits(), (self.base >> 24) as u8);
            }
//@before 0 self.base <<= 8
            let ghost (bb, ll) = (self.base, self.length);
            proof {
                assert(((bb >> 24) as u8) as int * 0x1000000 * 256 + (bb << 8u32) as int == bb as int * 256) by {
                    assert(((bb >> 24) as u8) as u64 * 0x1_0000_0000u64 + (bb << 8u32) as u64 == bb as u64 * 256) by(bit_vector);
                }
                assert(ll < 0x100_0000u32 ==> (ll << 8u32) as u64 == ll as u64 * 256) by(bit_vector);
                lemma_pows();
            }
//@behind 0 self.length <<= 8
            proof {
                assert(self.low() == e0.low() * 256);
                k = k + 1;
            }
//@endfn
//@fn encoders.rs ArithmeticEncoder::done
//@attr #[verifier::rlimit(500)]
//@attr #[verifier::spinoff_prover]
//@ret r
//@sig
        requires old(self).steady()
        ensures final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            // the delivered digits are a number of the interval, with four digits more than were produced before
            r is Ok && final(self).exact@ ==> ({
                let f = final(self).out_stream.sunk().skip(old(self).start@);
                f.len() == old(self).iv().n + 4 && old(self).low() < nat256(f) < old(self).low() + old(self).length
            }),
//@start
        let ghost e = *self; let ghost mut off: int = 0; let ghost mut e2 = *self; let ghost mut s1 = self.out_stream.sunk(); let ghost mut s2 = s1; let ghost mut s3 = s1;
        proof { lemma_pows(); assert(0x100_0000u32 >> 1u32 == 0x80_0000u32 && 0x100_0000u32 >> 9u32 == 0x8000u32) by(bit_vector); }
//@before 0 if init_base > self.base
        proof { off = if another_byte { 0x100_0000 } else { 0x80_0000 }; }
//@before 0 self.renorm_enc_interval
        proof { assert(self.exact@ ==> self.low() == e.low() + off); }
//@behind 0 self.renorm_enc_interval()?
        proof { e2 = *self; s1 = self.out_stream.sunk(); s2 = s1; s3 = s1;
            assert(e2.exact@ ==> e2.low() == (e.low() + off) * (if another_byte { 256int } else { 65536int }));
        }
//@before 0 let buffer_size
        proof { s2 = self.out_stream.sunk();
            let h = self.out_buffer@.subrange(N(), 2 * N());
            assert(s2 =~= s1 + (if self.end_byte == N() { h } else { Seq::<u8>::empty() }));
        }
//@before 0 self.out_stream.write_all(&[0u8, 0u8])?
        proof { s3 = self.out_stream.sunk();
            assert(s3 =~= s2 + self.out_buffer@.subrange(0, self.out_byte as int));
            assert(s3.skip(self.start@) =~= e2.digits());
        }
//@before 0 Ok(())
        proof {
            let s4 = self.out_stream.sunk(); let f = s4.skip(self.start@);
            let z = if another_byte { seq![0u8, 0u8, 0u8] } else { seq![0u8, 0u8] };
            assert(s4 =~= s3 + z);
            assert(f =~= e2.digits() + z);
            lemma_nat_append(e2.digits(), z);
            lemma_nat_zeros(z);
            let d = nat256(e2.digits()); let b2 = e2.base as int;
            if e2.exact@ {
                if another_byte { assert(d * 16777216 <= e.low() + off < d * 16777216 + 16777216) by { assert(d * 0x1_0000_0000 + b2 == (e.low() + off) * 256); } }
                else { assert(d * 65536 <= e.low() + off < d * 65536 + 65536) by { assert(d * 0x1_0000_0000 + b2 == (e.low() + off) * 65536); } }
            }
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::encode_bit
//@ret r
//@sig
        requires old(self).steady(),
            bit_wf(*old(model)), sym <= 1
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok ==> bit_wf(*final(model)) && bit_stepped(*old(model), *final(model), sym as int),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow(old(self).iv(), bit_x(*old(model), old(self).length as int, sym as int), bit_l(*old(model), old(self).length as int, sym as int)),

//@start
        let ghost e = *self;
        proof { lemma_pows(); }
        proof { lemma_bit_share(*model, self.length as int); lemma_shift(self.length, 13); reveal_with_fuel(p2, 21); }

//@before 0 if self.length < AC_MIN_LENGTH
        proof {  assert(self.exact@ ==> self.low() == e.low() + (bit_x(*old(model), e.length as int, sym as int))); assert(self.length == (bit_l(*old(model), e.length as int, sym as int))); }
        let ghost e1 = *self;
//@before 0 model.bits_until_update
        proof {
            let x = bit_x(*old(model), e.length as int, sym as int); let l = bit_l(*old(model), e.length as int, sym as int);
            assert(self.exact@ ==> self.low() == times(e.low() + x, shifts(l)));
            assert(self.exact@ ==> self.digits().len() == e.digits().len() + shifts(l));
            assert(self.exact@ ==> self.length == times(l, shifts(l)));
            assert(self.exact@ ==> self.iv() == narrow(e.iv(), x, l));
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::encode_symbol
//@ret r
//@sig
        requires old(self).steady(),
            wf(*old(model)), sym < old(model).symbols
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            wf(*final(model)),
            r is Ok ==> stepped(*old(model), *final(model), sym as int),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow(old(self).iv(), sym_x(*old(model), old(self).length as int, sym as int), sym_l(*old(model), old(self).length as int, sym as int)),

//@start
        let ghost e = *self;
        proof { lemma_pows(); }
        let ghost m = *model; let ghost m1 = *model;
        proof { lemma_sym(*model, self.length as int, sym as int); lemma_shift(self.length, 15); reveal_with_fuel(p2, 21); lemma_count(*model, sym as int); }

//@before 0 if self.length < AC_MIN_LENGTH
        proof {  assert(self.exact@ ==> self.low() == e.low() + (sym_x(m, e.length as int, sym as int))); assert(self.length == (sym_l(m, e.length as int, sym as int))); }
        let ghost e1 = *self;
//@before 0 model.symbol_count
        proof {
            let x = sym_x(m, e.length as int, sym as int); let l = sym_l(m, e.length as int, sym as int);
            assert(self.exact@ ==> self.digits().len() == e.digits().len() + shifts(l));
            assert(self.exact@ ==> self.low() == times(e.low() + x, shifts(l)));
            assert(self.exact@ ==> self.iv() == narrow(e.iv(), x, l));
        }
//@before 0 if model.symbols_until_update == 0
        let ghost m1 = *model;
        proof {
            assert(m1.symbol_count@ == counted(m, sym as int));
            assert forall|j: int| has_table(m.symbols, m.compress) && 0 <= j <= m.table_size + 1 implies #[trigger] bracket(m1, j) by { assert(bracket(m, j)); }
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::write_bit
//@ret r
//@sig
        requires old(self).steady(),
            sym <= 1
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow_raw(old(self).iv(), 1, sym as int),

//@start
        let ghost e = *self;
        proof { lemma_pows(); }
        proof { lemma_shift(self.length, 1); reveal_with_fuel(p2, 21); lemma_raw(self.length as int, 1, sym as int); }

//@before 0 if self.length < AC_MIN_LENGTH
        proof {  assert(self.exact@ ==> self.low() == e.low() + (raw_x(e.length as int, 1, sym as int))); assert(self.length == (raw_l(e.length as int, 1))); }
        let ghost e1 = *self;
//@before 0 Ok(())
        proof {
            let x = raw_x(e.length as int, 1, sym as int); let l = raw_l(e.length as int, 1);
            assert(self.exact@ ==> self.low() == times(e.low() + x, shifts(l)));
            assert(self.exact@ ==> self.iv() == narrow(e.iv(), x, l));
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::write_byte
//@ret r
//@sig
        requires old(self).steady(),
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow_raw(old(self).iv(), 8, sym as int),

//@start
        let ghost e = *self;
        proof { lemma_pows(); }
        proof { lemma_shift(self.length, 8); reveal_with_fuel(p2, 21); lemma_raw(self.length as int, 8, sym as int); }

//@before 0 if self.length < AC_MIN_LENGTH
        proof {  assert(self.exact@ ==> self.low() == e.low() + (raw_x(e.length as int, 8, sym as int))); assert(self.length == (raw_l(e.length as int, 8))); }
        let ghost e1 = *self;
//@before 0 Ok(())
        proof {
            let x = raw_x(e.length as int, 8, sym as int); let l = raw_l(e.length as int, 8);
            assert(self.exact@ ==> self.low() == times(e.low() + x, shifts(l)));
            assert(self.exact@ ==> self.iv() == narrow(e.iv(), x, l));
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::write_short
//@ret r
//@sig
        requires old(self).steady(),
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow_raw(old(self).iv(), 16, sym as int),

//@start
        let ghost e = *self;
        proof { lemma_pows(); }
        proof { lemma_shift(self.length, 16); reveal_with_fuel(p2, 21); lemma_raw(self.length as int, 16, sym as int); }

//@before 0 if self.length < AC_MIN_LENGTH
        proof {  assert(self.exact@ ==> self.low() == e.low() + (raw_x(e.length as int, 16, sym as int))); assert(self.length == (raw_l(e.length as int, 16))); }
        let ghost e1 = *self;
//@before 0 Ok(())
        proof {
            let x = raw_x(e.length as int, 16, sym as int); let l = raw_l(e.length as int, 16);
            assert(self.exact@ ==> self.low() == times(e.low() + x, shifts(l)));
            assert(self.exact@ ==> self.iv() == narrow(e.iv(), x, l));
        }
//@endfn
//@fn encoders.rs ArithmeticEncoder::write_bits
//@ret r
//@sig
        requires old(self).steady(),
            1 <= bits <= 32, sym < pow2x(bits as int)
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow_bits(old(self).iv(), bits as int, sym as int),

//@start
        let ghost e = *self;
        proof { lemma_pows(); }
        let ghost (b0, s0) = (bits, sym); let ghost mut e2 = *self;
        proof { lemma_low16(sym); reveal_with_fuel(p2, 33); }

//@before 0 let init_base
        proof {
            e2 = *self;
            assert(1 <= bits <= 19 && sym < p2(bits as int)) by { lemma_halves(b0 as int, s0 as int); reveal_with_fuel(p2, 33); }
            lemma_shift(self.length, bits); lemma_raw(self.length as int, bits as int, sym as int);
        }
//@before 0 if self.length < AC_MIN_LENGTH
        proof { assert(self.exact@ ==> self.low() == e2.low() + raw_x(e2.length as int, bits as int, sym as int)); assert(self.length == raw_l(e2.length as int, bits as int)); }
//@endfn
//@fn encoders.rs ArithmeticEncoder::write_int
//@ret r
//@sig
        requires old(self).steady()
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow_int(old(self).iv(), sym as int),
//@start
        proof { lemma_low16(sym); }
//@endfn
//@fn encoders.rs ArithmeticEncoder::write_int64
//@ret r
//@sig
        requires old(self).steady()
        ensures
            final(self).safe(), final(self).start == old(self).start, final(self).exact@ ==> old(self).exact@,
            r is Ok ==> final(self).steady(),
            r is Ok && final(self).exact@ ==> final(self).iv() == narrow_int64(old(self).iv(), sym as int),
//@start
        proof { lemma_low32(sym); }
//@endfn
}
pub open spec fn pow2x(k: int) -> int { p2(k) }
pub proof fn lemma_low16(s: u32)
    ensures (s & 0xFFFF) as int == s as int % 65536, (s >> 16u32) as int == s as int / 65536, ((s & 0xFFFF) as u16) as int == s as int % 65536, ((s >> 16u32) as u16) as int == s as int / 65536
{
    assert((s & 0xFFFF) == s % 65536 && (s >> 16u32) == s / 65536) by(bit_vector);
}
pub proof fn lemma_low32(s: u64)
    ensures ((s & 0xFFFF_FFFF) as u32) as int == s as int % 0x1_0000_0000, ((s >> 32u64) as u32) as int == s as int / 0x1_0000_0000
{
    assert((s & 0xFFFF_FFFF) == s % 0x1_0000_0000 && (s >> 32u64) == s / 0x1_0000_0000) by(bit_vector);
}
pub proof fn lemma_halves(bits: int, s: int)
    requires 1 <= bits <= 32, 0 <= s < p2(bits)
    ensures bits > 19 ==> s / 65536 < p2(bits - 16)
{
    reveal_with_fuel(p2, 33);
    if bits > 19 { assert(p2(bits) == 65536 * p2(bits - 16)); }
}
pub open spec fn back(st: int, j: int) -> int { if j <= st { st - j } else { st - j + 2 * N() } }

// ================================================================ decoder
//@struct decoders.rs ArithmeticDecoder
impl<T: Read> ArithmeticDecoder<T> {
    pub open spec fn steady(&self) -> bool { self.length >= AC_MIN_LENGTH && self.value < self.length }
    pub open spec fn dv(&self) -> Dv { Dv { value: self.value as int, len: self.length as int, left: self.in_stream.left() } }
}
// value and rest after k more bytes
pub open spec fn fed(v: int, left: Seq<u8>, k: int) -> int { times(v, k) + nat256(left.take(k)) }
// a decoder state: value inside its interval, length of the interval, bytes not read yet
pub struct Dv { pub value: int, pub len: int, pub left: Seq<u8> }
// after taking the part [x, x + l) of the interval
pub open spec fn part_of(d: Dv, x: int, l: int) -> Dv {
    let k = shifts(l);
    Dv { value: fed(d.value - x, d.left, k), len: times(l, k), left: d.left.skip(k) }
}
pub open spec fn feeds(d: Dv, l: int) -> bool { d.left.len() >= shifts(l) }
pub open spec fn raw_val(d: Dv, bits: int) -> int { d.value / raw_l(d.len, bits) }
pub open spec fn raw_next(d: Dv, bits: int) -> Dv { part_of(d, raw_x(d.len, bits, raw_val(d, bits)), raw_l(d.len, bits)) }
// the value is not in the rest of the interval that no number of so many bits stands for
pub open spec fn raw_ok(d: Dv, bits: int) -> bool { raw_val(d, bits) < p2(bits) }
pub open spec fn raw_fed(d: Dv, bits: int) -> bool { feeds(d, raw_l(d.len, bits)) }
pub open spec fn bits_val(d: Dv, bits: int) -> int { if bits > 19 { raw_val(d, 16) + 65536 * raw_val(raw_next(d, 16), bits - 16) } else { raw_val(d, bits) } }
pub open spec fn bits_next(d: Dv, bits: int) -> Dv { if bits > 19 { raw_next(raw_next(d, 16), bits - 16) } else { raw_next(d, bits) } }
pub open spec fn bits_ok(d: Dv, bits: int) -> bool { if bits > 19 { raw_ok(d, 16) && raw_ok(raw_next(d, 16), bits - 16) } else { raw_ok(d, bits) } }
pub open spec fn bits_fed(d: Dv, bits: int) -> bool { if bits > 19 { raw_fed(d, 16) && raw_fed(raw_next(d, 16), bits - 16) } else { raw_fed(d, bits) } }
pub open spec fn int64_ok(d: Dv) -> bool { bits_ok(d, 32) && bits_ok(bits_next(d, 32), 32) }
impl<T: Read> ArithmeticDecoder<T> {
//@fn decoders.rs ArithmeticDecoder::new
//@ret r
//@sig
        ensures r.value == 0, r.length == AC_MAX_LENGTH, r.in_stream == in_stream
//@endfn
//@fn decoders.rs ArithmeticDecoder::reset
//@sig
        ensures final(self).value == 0, final(self).length == AC_MAX_LENGTH, final(self).in_stream == old(self).in_stream
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_init_bytes
//@ret r
//@sig
        ensures final(self).length == old(self).length,
            old(self).in_stream.left().len() >= 4 ==> r is Ok,
            r is Ok ==> old(self).in_stream.left().len() >= 4 && final(self).value == nat256(old(self).in_stream.left().take(4)) && final(self).in_stream.left() == old(self).in_stream.left().skip(4)
//@before 0 Ok(())
        proof {
            let d = old(self).in_stream.left().take(4);
            assert(v@ == d);
            lemma_nat4(d);
            let (a, b, c, e) = (d[0], d[1], d[2], d[3]);
            assert((a as u32) << 24u32 | (b as u32) << 16u32 | (c as u32) << 8u32 | (e as u32) == ((a as u64) * 16777216 + (b as u64) * 65536 + (c as u64) * 256 + (e as u64)) as u32) by(bit_vector);
            assert((a as u64) * 16777216 + (b as u64) * 65536 + (c as u64) * 256 + (e as u64) <= 0xFFFF_FFFFu64) by(bit_vector);
        }
//@endfn
//@fn decoders.rs ArithmeticDecoder::renorm_dec_interval
//@ret r
//@sig
        requires 1 <= old(self).length < AC_MIN_LENGTH
        ensures
            r is Ok ==> final(self).length >= AC_MIN_LENGTH,
            old(self).in_stream.left().len() >= shifts(old(self).length as int) ==> r is Ok,
            r is Ok && old(self).value < old(self).length ==> final(self).steady() && feeds(old(self).dv(), old(self).length as int) && final(self).dv() == part_of(old(self).dv(), 0, old(self).length as int),
//@start
        let ghost mut k: int = 0; let ghost mut e0 = *self; let ghost ok = self.value < self.length;
        let ghost s0 = self.in_stream.left(); let ghost v0 = self.value as int; let ghost l0 = self.length as int;
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); }
//@loop 0
            invariant_except_break self.length < AC_MIN_LENGTH, 0 <= k < shifts(l0),
            invariant 1 <= l0 < AC_MIN_LENGTH, 0 <= k <= shifts(l0), l0 == old(self).length, v0 == old(self).value, s0 == old(self).in_stream.left(),
                ok == (v0 < l0), s0.len() >= k, self.in_stream.left() == s0.skip(k),
                self.length == times(l0, k),
                ok ==> self.value < self.length && self.value == fed(v0, s0, k),
            ensures k == shifts(l0), self.length >= AC_MIN_LENGTH,
            decreases 4 - k
//@body 0
                proof { e0 = *self; }
//@behind 0 self.length <<= 8
            proof {
                let (ll, vv) = (e0.length, e0.value); let d = s0[k];
                lemma_pows();
                assert(ll < 0x100_0000u32 ==> (ll << 8u32) as u64 == ll as u64 * 256) by(bit_vector);
                assert(vv < 0x100_0000u32 ==> ((vv << 8u32) | d as u32) as u64 == vv as u64 * 256 + d as u64) by(bit_vector);
                assert(s0.skip(k).skip(1) =~= s0.skip(k + 1));
                assert(s0.take(k + 1) =~= s0.take(k).push(d));
                lemma_nat_push(s0.take(k), d);
                k = k + 1;
            }
//@endfn
//@fn decoders.rs ArithmeticDecoder::decode_bit
//@ret r
//@sig
        requires old(self).steady(), bit_wf(*old(model))
        ensures r is Ok ==> final(self).steady(),
            r is Ok ==> bit_wf(*final(model)) && bit_stepped(*old(model), *final(model), r->Ok_0 as int) && r->Ok_0 <= 1,
            r is Ok ==> ({ let x = bit_x(*old(model), old(self).length as int, r->Ok_0 as int); let l = bit_l(*old(model), old(self).length as int, r->Ok_0 as int);
                x <= old(self).value < x + l && final(self).dv() == part_of(old(self).dv(), x, l) && feeds(old(self).dv(), l) }),
            ok_bit(*old(model), old(self).dv()) ==> r is Ok,

//@start
        let ghost e = *self; let ghost s0 = self.in_stream.left();
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); }
        proof { lemma_bit_share(*model, self.length as int); lemma_shift(self.length, 13); lemma_p2_table(); }
//@before 0 if self.length < AC_MIN_LENGTH
        let ghost sy = if sym { 1int } else { 0int };
        proof { assert(self.value == e.value - bit_x(*old(model), e.length as int, sy)); assert(self.length == bit_l(*old(model), e.length as int, sy)); }
//@before 0 model.bits_until_update
        proof { assert(self.dv() == part_of(e.dv(), bit_x(*old(model), e.length as int, sy), bit_l(*old(model), e.length as int, sy))); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_bit
//@ret r
//@sig
        requires old(self).steady()
        ensures r is Ok ==> final(self).steady(),
            raw_fed(old(self).dv(), 1) ==> r is Ok,
            r is Ok ==> raw_fed(old(self).dv(), 1),
            r is Ok && raw_ok(old(self).dv(), 1) ==> r->Ok_0 == raw_val(old(self).dv(), 1) && final(self).dv() == raw_next(old(self).dv(), 1),

//@start
        let ghost e = *self; let ghost s0 = self.in_stream.left();
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); }
        proof { lemma_shift(self.length, 1); lemma_p2_table(); lemma_dv(self.length as int, self.value as int, 1); }
//@before 0 if self.length < AC_MIN_LENGTH
        proof { lemma_dv(e.length as int, e.value as int, 1); assert(sym == raw_val(e.dv(), 1));
            assert(self.value == e.value - raw_x(e.length as int, 1, sym as int)) by { assert(raw_x(e.length as int, 1, sym as int) == raw_l(e.length as int, 1) * sym) by(nonlinear_arith) requires raw_x(e.length as int, 1, sym as int) == sym * raw_l(e.length as int, 1); }
            assert(self.length == raw_l(e.length as int, 1)); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_byte
//@ret r
//@sig
        requires old(self).steady()
        ensures r is Ok ==> final(self).steady(),
            raw_fed(old(self).dv(), 8) ==> r is Ok,
            r is Ok ==> raw_fed(old(self).dv(), 8),
            r is Ok && raw_ok(old(self).dv(), 8) ==> r->Ok_0 == raw_val(old(self).dv(), 8) && final(self).dv() == raw_next(old(self).dv(), 8),

//@start
        let ghost e = *self; let ghost s0 = self.in_stream.left();
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); }
        proof { lemma_shift(self.length, 8); lemma_p2_table(); lemma_dv(self.length as int, self.value as int, 8); }
//@before 0 if self.length < AC_MIN_LENGTH
        proof { lemma_dv(e.length as int, e.value as int, 8); assert(sym == raw_val(e.dv(), 8));
            assert(self.value == e.value - raw_x(e.length as int, 8, sym as int)) by { assert(raw_x(e.length as int, 8, sym as int) == raw_l(e.length as int, 8) * sym) by(nonlinear_arith) requires raw_x(e.length as int, 8, sym as int) == sym * raw_l(e.length as int, 8); }
            assert(self.length == raw_l(e.length as int, 8)); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_short
//@ret r
//@sig
        requires old(self).steady()
        ensures r is Ok ==> final(self).steady(),
            raw_fed(old(self).dv(), 16) ==> r is Ok,
            r is Ok ==> raw_fed(old(self).dv(), 16),
            r is Ok && raw_ok(old(self).dv(), 16) ==> r->Ok_0 == raw_val(old(self).dv(), 16) && final(self).dv() == raw_next(old(self).dv(), 16),

//@start
        let ghost e = *self; let ghost s0 = self.in_stream.left();
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); }
        proof { lemma_shift(self.length, 16); lemma_p2_table(); lemma_dv(self.length as int, self.value as int, 16); }
//@before 0 if self.length < AC_MIN_LENGTH
        proof { lemma_dv(e.length as int, e.value as int, 16); assert(sym == raw_val(e.dv(), 16));
            assert(self.value == e.value - raw_x(e.length as int, 16, sym as int)) by { assert(raw_x(e.length as int, 16, sym as int) == raw_l(e.length as int, 16) * sym) by(nonlinear_arith) requires raw_x(e.length as int, 16, sym as int) == sym * raw_l(e.length as int, 16); }
            assert(self.length == raw_l(e.length as int, 16)); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_bits
//@ret r
//@sig
        requires old(self).steady(), 1 <= bits <= 32
        ensures r is Ok ==> final(self).steady(),
            bits_fed(old(self).dv(), bits as int) && bits_ok(old(self).dv(), bits as int) ==> r is Ok,
            r is Ok && bits_ok(old(self).dv(), bits as int) ==> r->Ok_0 == bits_val(old(self).dv(), bits as int) && final(self).dv() == bits_next(old(self).dv(), bits as int),
        decreases bits
//@start
        let ghost e = *self; let ghost s0 = self.in_stream.left();
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); lemma_p2_table();
            if bits <= 19 { lemma_shift(self.length, bits); lemma_dv(self.length as int, self.value as int, bits as int); } }
//@before 0 Ok(tmpl
        proof {
            assert(forall|h: u32| h < 65536 ==> (#[trigger] (h << 16u32)) == h * 65536) by(bit_vector);
            assert(tmpl % 65536 == 0 && tmp < 65536 ==> (tmpl | tmp) == tmpl + tmp) by(bit_vector);
            lemma_p2_table(); lemma_p2_mono(bits as int, 16);
        }
//@before 0 if self.length < AC_MIN_LENGTH
        proof { lemma_dv(e.length as int, e.value as int, bits as int); assert(sym == raw_val(e.dv(), bits as int));
            assert(self.value == e.value - raw_x(e.length as int, bits as int, sym as int)) by { assert(raw_x(e.length as int, bits as int, sym as int) == raw_l(e.length as int, bits as int) * sym) by(nonlinear_arith) requires raw_x(e.length as int, bits as int, sym as int) == sym * raw_l(e.length as int, bits as int); }
            assert(self.length == raw_l(e.length as int, bits as int)); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_int
//@ret r
//@sig
        requires old(self).steady()
        ensures r is Ok ==> final(self).steady(),
            bits_fed(old(self).dv(), 32) && bits_ok(old(self).dv(), 32) ==> r is Ok,
            r is Ok && bits_ok(old(self).dv(), 32) ==> r->Ok_0 == bits_val(old(self).dv(), 32) && final(self).dv() == bits_next(old(self).dv(), 32),
//@start
        proof { lemma_p2_table(); }
//@before 0 Ok(upper_int
        proof { lemma_join16(lower_int, upper_int); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::read_int_64
//@ret r
//@sig
        requires old(self).steady()
        ensures r is Ok ==> final(self).steady(),
            int64_ok(old(self).dv()) && bits_fed(old(self).dv(), 32) && bits_fed(bits_next(old(self).dv(), 32), 32) ==> r is Ok,
            r is Ok && int64_ok(old(self).dv()) ==> r->Ok_0 == bits_val(old(self).dv(), 32) + 0x1_0000_0000 * bits_val(bits_next(old(self).dv(), 32), 32)
                && final(self).dv() == bits_next(bits_next(old(self).dv(), 32), 32),
//@before 0 Ok((upper_int
        proof { lemma_join32(lower_int, upper_int); }
//@endfn
//@fn decoders.rs ArithmeticDecoder::decode_symbol
//@ret r
//@sig
        requires old(self).steady(), wf(*old(model))
        ensures r is Ok ==> final(self).steady(), wf(*final(model)),
            r is Ok ==> r->Ok_0 < old(model).symbols && stepped(*old(model), *final(model), r->Ok_0 as int),
            r is Ok ==> ({ let x = sym_x(*old(model), old(self).length as int, r->Ok_0 as int); let l = sym_l(*old(model), old(self).length as int, r->Ok_0 as int);
                x <= old(self).value < x + l && final(self).dv() == part_of(old(self).dv(), x, l) && feeds(old(self).dv(), l) }),
            ok_sym(*old(model), old(self).dv()) ==> r is Ok,
//@start
        let ghost e = *self; let ghost s0 = self.in_stream.left(); let ghost m = *model; let ghost u = self.length as int / 32768; let ghost d = model.distribution@;
        proof { lemma_pows(); assert(s0.take(0) =~= Seq::<u8>::empty()); assert(s0.skip(0) =~= s0); lemma_p2_table(); lemma_shift(self.length, 15);
            assert(forall|z: u32| (#[trigger] (z >> 1u32)) == z / 2) by (bit_vector); lemma_prod(0, u, self.length as int); }
//@behind 0 let t =
            proof {
                let p = pow2sh(model.table_shift);
                assert(dv as int == e.value as int / u);
                assert(dv <= 32768 + 63) by(nonlinear_arith) requires dv as int == e.value as int / u, e.value < e.length, u == e.length as int / 32768, u >= 512;
                assert(dv * u <= e.value && e.value < dv * u + u) by(nonlinear_arith) requires dv as int == e.value as int / u, u >= 512, e.value >= 0;
                lemma_shr(dv, model.table_shift); lemma_dvt(dv as int, model.table_shift, model.table_size as int);
                assert(bracket(m, t as int)); assert(bracket(m, t + 1));
            }
//@ahead 0
            proof { if n < model.symbols && sym >= n { if sym > n { assert(d[n as int] < d[sym as int]); } assert(false); } }
//@loop 0
                invariant static_ok(*model), shares_ok(model.distribution@, model.symbols as int), *model == m, e.steady(),
                    self.value == e.value, self.in_stream == e.in_stream, u == e.length as int / 32768, u >= 512, self.length == u,
                    sym < n <= model.symbols,
                    d == model.distribution@, d[sym as int] <= dv, n < model.symbols ==> d[n as int] > dv,
                decreases n - sym
//@body 0
                proof { assert(forall|z: u32| (#[trigger] (z >> 1u32)) == z / 2) by (bit_vector); }
//@before 0 x = model.distribution[sym as usize] * self.length
            proof {
                lemma_sym(m, e.length as int, sym as int);
                assert(d[sym as int] * u <= e.value) by(nonlinear_arith) requires d[sym as int] <= dv, dv * u <= e.value, u >= 0, d[sym as int] >= 0;
                if sym + 1 < model.symbols { assert(e.value < d[sym + 1] * u) by(nonlinear_arith) requires dv + 1 <= d[sym + 1], e.value < dv * u + u, u >= 0; }
            }
//@loop 1
                invariant_except_break sym < k < n,
                invariant static_ok(*model), shares_ok(model.distribution@, model.symbols as int), *model == m, e.steady(),
                    self.value == e.value, self.in_stream == e.in_stream, u == e.length as int / 32768, u >= 512, self.length == u,
                    sym < n <= model.symbols,
                    d == model.distribution@, 
                    x == d[sym as int] * u, x <= e.value,
                    n == model.symbols ==> y == e.length, n < model.symbols ==> y == d[n as int] * u && y > e.value,
                ensures n == sym + 1, static_ok(*model), shares_ok(model.distribution@, model.symbols as int), *model == m, e.steady(),
                    self.value == e.value, self.in_stream == e.in_stream, u == e.length as int / 32768, u >= 512, self.length == u,
                    sym < n <= model.symbols,
                    x == d[sym as int] * u, x <= e.value,
                    n == model.symbols ==> y == e.length, n < model.symbols ==> y == d[n as int] * u && y > e.value,
                decreases n - sym
//@body 1
                proof { assert(forall|z: u32| (#[trigger] (z >> 1u32)) == z / 2) by (bit_vector); lemma_sym(m, e.length as int, k as int); lemma_prod(d[k as int] as int, u, e.length as int);
                    assert(u * d[k as int] == d[k as int] * u) by(nonlinear_arith); }
//@before 0 self.value -= x
        proof {
            lemma_sym(m, e.length as int, sym as int); lemma_count(m, sym as int);
            assert(x == sym_x(m, e.length as int, sym as int)); assert(y - x == sym_l(m, e.length as int, sym as int));
            assert(x <= e.value < y);
            assert(sym_x(m, e.dv().len, sym as int) <= e.dv().value);
        }
//@before 0 model.symbol_count
        proof { assert(self.dv() == part_of(e.dv(), sym_x(m, e.length as int, sym as int), sym_l(m, e.length as int, sym as int))); }
//@before 0 if model.symbols_until_update == 0
        let ghost m1 = *model;
        proof {
            assert(m1.symbol_count@ == counted(m, sym as int));
            assert forall|j: int| has_table(m.symbols, m.compress) && 0 <= j <= m.table_size + 1 implies #[trigger] bracket(m1, j) by { assert(bracket(m, j)); }
        }
//@endfn
}
pub proof fn lemma_nat4(d: Seq<u8>)
    requires d.len() == 4
    ensures nat256(d) == d[0] * 16777216 + d[1] * 65536 + d[2] * 256 + d[3]
{
    reveal_with_fuel(nat256, 6);
    let c = d.drop_last(); let b = c.drop_last(); let a = b.drop_last();
    assert(a.drop_last() =~= Seq::<u8>::empty());
    assert(c.last() == d[2] && b.last() == d[1] && a.last() == d[0]);
}

pub proof fn lemma_dv(len: int, v: int, bits: int)
    requires 0x100_0000 <= len < 0x1_0000_0000, 0 <= v < len, 1 <= bits <= 19
    ensures ({ let u = raw_l(len, bits); let s = v / u; u >= 32 && 0 <= s && 0 <= u * s <= v && v - u * s < u && raw_x(len, bits, s) == u * s })
{
    lemma_shift(0, bits as u32);
    let p = p2(bits); let u = len / p; let s = v / u;
    assert(32 <= u) by(nonlinear_arith) requires u == len / p, 1 <= p <= 0x80000, len >= 0x100_0000;
    assert(0 <= s && s * u <= v && v < s * u + u) by(nonlinear_arith) requires s == v / u, u >= 32, v >= 0;
    assert(s * u == u * s) by(nonlinear_arith);
}

pub proof fn lemma_join16(lo: u32, hi: u32)
    ensures lo < 65536 && hi < 65536 ==> ((hi << 16u32) | lo) as int == hi * 65536 + lo && ((hi << 16u32) >> 16u32) == hi
{ assert(lo < 65536 && hi < 65536 ==> ((hi << 16u32) | lo) == hi * 65536 + lo && ((hi << 16u32) >> 16u32) == hi) by(bit_vector); }
pub proof fn lemma_join32(lo: u64, hi: u64)
    ensures lo < 0x1_0000_0000 && hi < 0x1_0000_0000 ==> ((hi << 32u64) | lo) as int == hi * 0x1_0000_0000 + lo
{ assert(lo < 0x1_0000_0000u64 && hi < 0x1_0000_0000u64 ==> ((hi << 32u64) | lo) == hi * 0x1_0000_0000u64 + lo) by(bit_vector); }
// enough bytes are left for whichever bit the value stands for
pub open spec fn ok_bit(m: ArithmeticBitModel, d: Dv) -> bool {
    feeds(d, if d.value < m.bit_0_prob * (d.len / 8192) { bit_l(m, d.len, 0) } else { bit_l(m, d.len, 1) })
}

pub proof fn lemma_p2_pos(a: int)
    ensures p2(a) >= 1
    decreases a
{ if a > 0 { lemma_p2_pos(a - 1); } }
pub proof fn lemma_p2_mono(a: int, b: int)
    requires 0 <= a
    ensures a <= b ==> p2(a) <= p2(b), p2(a) >= 1
    decreases b
{
    lemma_p2_pos(a);
    if a < b { lemma_p2_mono(a, b - 1); lemma_p2_pos(b - 1); }
}
// enough bytes are left for whichever symbol the value stands for
pub open spec fn ok_sym(m: ArithmeticModel, d: Dv) -> bool {
    forall|s: int| 0 <= s < m.symbols && #[trigger] sym_x(m, d.len, s) <= d.value < sym_x(m, d.len, s) + sym_l(m, d.len, s) ==> feeds(d, sym_l(m, d.len, s))
}
pub proof fn lemma_prod(d: int, u: int, len: int)
    requires 0 <= d <= 32768, u == len / 32768, 0x100_0000 <= len < 0x1_0000_0000
    ensures 0 <= d * u <= len, u >= 512
{ assert(0 <= d * u && d * u <= 32768 * u) by(nonlinear_arith) requires 0 <= d <= 32768, u >= 0; }
pub proof fn lemma_dvt(dv: int, sh: u32, size: int)
    requires 6 <= sh <= 12, 0 <= dv <= 32768 + 63, size * pow2sh(sh) == 32768, size >= 0
    ensures ({ let p = pow2sh(sh); let t = dv / p; 0 <= t <= size && t * p <= dv < (t + 1) * p })
{
    let p = pow2sh(sh); let t = dv / p;
    assert(p == 64 || p == 128 || p == 256 || p == 512 || p == 1024 || p == 2048 || p == 4096);
    assert(t * p <= dv < (t + 1) * p && 0 <= t) by(nonlinear_arith) requires t == dv / p, p > 0, dv >= 0;
    assert(t <= size) by(nonlinear_arith) requires t * p <= dv, dv <= 32768 + 63, size * p == 32768, p >= 64;
}
