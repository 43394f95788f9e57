//@const models.rs DM_LENGTH_SHIFT
//@const models.rs DM_MAX_COUNT
//@const models.rs BM_LENGTH_SHIFT
//@const models.rs BM_MAX_COUNT
//@struct models.rs ArithmeticModel
// ---------------------------------------------------------------- specification
pub open spec fn sum_to(c: Seq<u32>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { sum_to(c, k - 1) + c[k - 1] }
}
pub open spec fn all_pos(c: Seq<u32>) -> bool { forall|i: int| 0 <= i < c.len() ==> 1 <= #[trigger] c[i] }
pub proof fn sum_bounds(c: Seq<u32>, i: int, j: int)
    requires 0 <= i <= j <= c.len(), all_pos(c)
    ensures sum_to(c, i) + (j - i) <= sum_to(c, j), sum_to(c, i) >= i
    decreases j
{
    if j > 0 {
      if i < j { sum_bounds(c, i, j - 1); assert(1 <= c[j-1]); } else { sum_bounds(c, i - 1, j - 1); assert(1 <= c[j-1]); }
    }
}
pub proof fn sum_ext(a: Seq<u32>, b: Seq<u32>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i]
    ensures sum_to(a, k) == sum_to(b, k)
    decreases k
{ if k > 0 { sum_ext(a, b, k - 1); assert(a[k-1] == b[k-1]); } }
pub proof fn sum_inc(a: Seq<u32>, s: int, k: int)
    requires 0 <= s < a.len(), 0 <= k <= a.len(), a[s] < u32::MAX
    ensures sum_to(a.update(s, (a[s] + 1) as u32), k) == sum_to(a, k) + (if s < k { 1int } else { 0int })
    decreases k
{ if k > 0 { sum_inc(a, s, k - 1); } }
pub proof fn sum_halve(a: Seq<u32>, b: Seq<u32>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] b[i] == (a[i] + 1) / 2
    ensures 2 * sum_to(b, k) <= sum_to(a, k) + k
    decreases k
{ if k > 0 { sum_halve(a, b, k - 1); assert(b[k-1] == (a[k-1] + 1) / 2); } }

// what one symbol's lower bound is, given the counts
pub open spec fn share(c: Seq<u32>, k: int) -> int { ((0x8000_0000int / sum_to(c, c.len() as int)) * sum_to(c, k)) / 65536 }

// the shares partition [0, 2^15) in symbol order, each non-empty
pub open spec fn shares_ok(d: Seq<u32>, n: int) -> bool {
    d.len() == n && d[0] == 0 && d[n - 1] < 32768 && forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] d[i] < #[trigger] d[j]
}
pub open spec fn pow2sh(s: u32) -> int { if s == 6 { 64 } else if s == 7 { 128 } else if s == 8 { 256 } else if s == 9 { 512 } else if s == 10 { 1024 } else if s == 11 { 2048 } else if s == 12 { 4096 } else { 0 } }
pub open spec fn bracket(m: ArithmeticModel, j: int) -> bool {
    m.decoder_table@[j] < m.symbols
    && m.distribution@[m.decoder_table@[j] as int] <= (if j == 0 { 0 } else { j * pow2sh(m.table_shift) - 1 })
    && (m.decoder_table@[j] + 1 < m.symbols ==> m.distribution@[m.decoder_table@[j] + 1] >= j * pow2sh(m.table_shift))
}
pub open spec fn has_table(symbols: u32, compress: bool) -> bool { !compress && symbols > 16 }
pub open spec fn static_ok(m: ArithmeticModel) -> bool {
    2 <= m.symbols <= 2048 && m.last_symbol == m.symbols - 1
    && m.distribution@.len() == m.symbols && m.symbol_count@.len() == m.symbols
    && (if has_table(m.symbols, m.compress) {
          6 <= m.table_shift <= 12 && m.table_size * pow2sh(m.table_shift) == 32768
          && m.decoder_table@.len() == m.table_size + 2
          && 8 <= m.table_size <= 512
        } else { m.table_size == 0 && m.decoder_table@.len() == 0 && m.table_shift == 0 })
}
pub open spec fn table_ok(m: ArithmeticModel) -> bool {
    has_table(m.symbols, m.compress) ==> forall|j: int| 0 <= j <= m.table_size + 1 ==> #[trigger] bracket(m, j)
}
pub open spec fn counts_ok(m: ArithmeticModel) -> bool {
    all_pos(m.symbol_count@) 
    && sum_to(m.symbol_count@, m.symbols as int) == m.total_count + m.update_cycle - m.symbols_until_update
    && m.total_count <= 32768 && 1 <= m.symbols_until_update <= m.update_cycle && m.update_cycle <= (m.symbols + 6) * 8
}
pub open spec fn wf(m: ArithmeticModel) -> bool {
    static_ok(m) && counts_ok(m) && shares_ok(m.distribution@, m.symbols as int) && table_ok(m)
}
// same probabilities: everything that decides how symbols are coded now and later
pub open spec fn same_shares(a: ArithmeticModel, b: ArithmeticModel) -> bool {
    a.symbols == b.symbols && a.distribution@ == b.distribution@ && a.symbol_count@ == b.symbol_count@
    && a.total_count == b.total_count && a.update_cycle == b.update_cycle && a.symbols_until_update == b.symbols_until_update
}
pub proof fn lemma_share(c: Seq<u32>, n: int, k: int, total: int, scale: int)
    requires 0 <= k <= n, n == c.len(), all_pos(c), total == sum_to(c, n), 1 <= total <= 32768, scale == 0x8000_0000int / total
    ensures 65536 <= scale, 0 <= scale * sum_to(c, k) <= 0x8000_0000,
      k < n ==> scale * sum_to(c, k) + 65536 <= scale * sum_to(c, k + 1),
      k < n ==> scale * sum_to(c, k) + 65536 <= 0x8000_0000,
{
    sum_bounds(c, k, n); sum_bounds(c, 0, k);
    assert(scale >= 65536) by(nonlinear_arith) requires scale == 0x8000_0000int / total, 1 <= total <= 32768;
    assert(scale * total <= 0x8000_0000) by(nonlinear_arith) requires scale == 0x8000_0000int / total, 1 <= total;
    let s = sum_to(c, k);
    assert(scale * s <= scale * total) by(nonlinear_arith) requires 0 <= s <= total, scale >= 0;
    assert(scale * s >= 0) by(nonlinear_arith) requires 0 <= s, scale >= 0;
    if k < n {
        sum_bounds(c, k, k + 1); sum_bounds(c, k + 1, n);
        let s1 = sum_to(c, k + 1);
        assert(scale * s + 65536 <= scale * s1) by(nonlinear_arith) requires s + 1 <= s1, scale >= 65536;
        assert(scale * s1 <= scale * total) by(nonlinear_arith) requires 0 <= s1 <= total, scale >= 0;
    }
}
pub proof fn lemma_shr(z: u32, s: u32)
    requires 6 <= s <= 12
    ensures (z >> s) as int == z as int / pow2sh(s)
{
    assert((z >> 6u32) == z / 64 && (z >> 7u32) == z / 128 && (z >> 8u32) == z / 256 && (z >> 9u32) == z / 512 && (z >> 10u32) == z / 1024 && (z >> 11u32) == z / 2048 && (z >> 12u32) == z / 4096) by(bit_vector);
}

pub open spec fn halved(c: Seq<u32>, total: int) -> Seq<u32> {
    if total > 32768 { Seq::new(c.len(), |i: int| ((c[i] + 1) / 2) as u32) } else { c }
}
pub open spec fn shares_of(c: Seq<u32>) -> Seq<u32> { Seq::new(c.len(), |i: int| share(c, i) as u32) }
pub open spec fn next_cycle(c: int, n: int) -> int { if 5 * c / 4 > (n + 6) * 8 { (n + 6) * 8 } else { 5 * c / 4 } }
pub proof fn lemma_w(d: int, sh: u32, size: int)
    requires 6 <= sh <= 12, 0 <= d < 32768, size * pow2sh(sh) == 32768
    ensures 0 <= d / pow2sh(sh) < size, (d / pow2sh(sh)) * pow2sh(sh) <= d < (d / pow2sh(sh) + 1) * pow2sh(sh),
{
    let p = pow2sh(sh); let q = d / p;
    assert(p == 64 || p == 128 || p == 256 || p == 512 || p == 1024 || p == 2048 || p == 4096);
    assert(q * p <= d < (q + 1) * p && 0 <= q) by(nonlinear_arith) requires q == d / p, p > 0, 0 <= d;
    assert(q < size) by(nonlinear_arith) requires q * p <= d, d < 32768, size * p == 32768, p > 0;
}
pub proof fn lemma_le(s: int, w: int, d: int, p: int)
    requires s * p <= d, w == d / p, p > 0
    ensures s <= w
{ assert(s <= w) by(nonlinear_arith) requires s * p <= d, w == d / p, p > 0; }
pub proof fn lemma_share_order(c: Seq<u32>, n: int, i: int, j: int, total: int)
    requires 0 <= i < j < n, n == c.len(), all_pos(c), total == sum_to(c, n), 1 <= total <= 32768
    ensures share(c, i) < share(c, j)
    decreases j - i
{
    let scale = 0x8000_0000int / total;
    lemma_share(c, n, j - 1, total, scale);
    if i < j - 1 { lemma_share_order(c, n, i, j - 1, total); }
}

pub open spec fn updated(a: ArithmeticModel, b: ArithmeticModel) -> bool {
    b.symbols == a.symbols && b.compress == a.compress && b.symbols_until_update == b.update_cycle
    // the result depends on the counts only, not on the tables
    && b.symbol_count@ == halved(a.symbol_count@, a.total_count + a.update_cycle)
    && b.distribution@ == shares_of(b.symbol_count@)
    && b.total_count as int == sum_to(b.symbol_count@, a.symbols as int)
    && b.update_cycle as int == next_cycle(a.update_cycle as int, a.symbols as int)
}
pub open spec fn p2(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * p2(k - 1) } }
pub proof fn lemma_p2(k: int)
    requires 0 <= k <= 11
    ensures (1u32 << (k as u32)) as int == p2(k)
{
    reveal_with_fuel(p2, 13);
    assert((1u32 << 0u32) == 1 && (1u32 << 1u32) == 2 && (1u32 << 2u32) == 4 && (1u32 << 3u32) == 8 && (1u32 << 4u32) == 16 && (1u32 << 5u32) == 32 && (1u32 << 6u32) == 64
        && (1u32 << 7u32) == 128 && (1u32 << 8u32) == 256 && (1u32 << 9u32) == 512 && (1u32 << 10u32) == 1024 && (1u32 << 11u32) == 2048) by(bit_vector);
    assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8 || k == 9 || k == 10 || k == 11);
}
pub proof fn lemma_sizes(b: u32)
    requires 3 <= b <= 9
    ensures 8 <= p2(b as int) <= 512, p2(b as int) * pow2sh((15 - b) as u32) == 32768
{
    reveal_with_fuel(p2, 13);
    assert(b == 3 || b == 4 || b == 5 || b == 6 || b == 7 || b == 8 || b == 9);
}
pub proof fn sum_ones(c: Seq<u32>, k: int)
    requires 0 <= k <= c.len(), forall|i: int| 0 <= i < c.len() ==> c[i] == 1
    ensures sum_to(c, k) == k
    decreases k
{ if k > 0 { sum_ones(c, k - 1); } }
impl ArithmeticModel {
//@fn models.rs ArithmeticModel::update
//@sig
        requires static_ok(*old(self)), all_pos(old(self).symbol_count@),
            old(self).total_count <= 32768, 1 <= old(self).update_cycle <= (old(self).symbols + 6) * 8,
            sum_to(old(self).symbol_count@, old(self).symbols as int) == old(self).total_count + old(self).update_cycle
        ensures wf(*final(self)), updated(*old(self), *final(self)),
//@start
        let ghost n = self.symbols as int;
        proof { sum_bounds(self.symbol_count@, 0, n); assert(1u32 << 15u32 == 32768) by(bit_vector); }
//@loop 0
                invariant static_ok(*self), n == self.symbols, self.symbols == old(self).symbols, self.compress == old(self).compress, self.update_cycle == old(self).update_cycle,
                    0 <= i0_ <= self.symbol_count@.len(),
                    all_pos(old(self).symbol_count@), old(self).symbol_count@.len() == n,
                    sum_to(old(self).symbol_count@, n) <= 32768 + (n + 6) * 8,
                    forall|i: int| 0 <= i < i0_ ==> #[trigger] self.symbol_count@[i] == (old(self).symbol_count@[i] + 1) / 2,
                    forall|i: int| i0_ <= i < n ==> #[trigger] self.symbol_count@[i] == old(self).symbol_count@[i],
                    self.total_count as int == sum_to(self.symbol_count@, i0_ as int),
                decreases self.symbol_count@.len() - i0_
//@body 0
                proof {
                    sum_bounds(old(self).symbol_count@, i0_ as int, i0_ as int + 1); sum_bounds(old(self).symbol_count@, i0_ as int + 1, n);
                    sum_halve(old(self).symbol_count@, self.symbol_count@, i0_ as int);
                    sum_bounds(old(self).symbol_count@, 0, i0_ as int);
                    assert(forall|z: u32| (#[trigger] (z >> 1)) == z / 2) by (bit_vector);
                }
                let ghost before_ = self.symbol_count@;
//@step 0
                proof { sum_ext(before_, self.symbol_count@, i0_ as int - 1); }
//@after 0
            proof { sum_halve(old(self).symbol_count@, self.symbol_count@, n); }
//@before 0 let mut sum
        proof {
            assert(self.symbol_count@ =~= halved(old(self).symbol_count@, old(self).total_count + old(self).update_cycle));
            assert(all_pos(self.symbol_count@));
            sum_bounds(self.symbol_count@, 0, n);
        }
//@loop 1
                invariant static_ok(*self), n == self.symbols, self.symbols == old(self).symbols, self.compress == old(self).compress, self.update_cycle == old(self).update_cycle,
                    0 <= i1_ <= n, all_pos(self.symbol_count@),
                    self.symbol_count@ == halved(old(self).symbol_count@, old(self).total_count + old(self).update_cycle),
                    self.total_count as int == sum_to(self.symbol_count@, n), 1 <= self.total_count <= 32768,
                    scale as int == 0x8000_0000int / self.total_count as int,
                    sum as int == sum_to(self.symbol_count@, i1_ as int),
                    forall|i: int| 0 <= i < i1_ ==> #[trigger] self.distribution@[i] == share(self.symbol_count@, i),
                decreases n - i1_
//@body 1
                proof {
                    lemma_share(self.symbol_count@, n, i1_ as int, self.total_count as int, scale as int);
                    sum_bounds(self.symbol_count@, i1_ as int, i1_ as int + 1); sum_bounds(self.symbol_count@, i1_ as int + 1, n);
                    assert(forall|z: u32| (#[trigger] (z >> 16u32)) == z / 65536) by (bit_vector);
                }
//@loop 2
                invariant static_ok(*self), n == self.symbols, self.symbols == old(self).symbols, self.compress == old(self).compress, self.update_cycle == old(self).update_cycle,
                    has_table(self.symbols, self.compress),
                    0 <= i2_ <= n, all_pos(self.symbol_count@),
                    self.symbol_count@ == halved(old(self).symbol_count@, old(self).total_count + old(self).update_cycle),
                    self.total_count as int == sum_to(self.symbol_count@, n), 1 <= self.total_count <= 32768,
                    scale as int == 0x8000_0000int / self.total_count as int,
                    sum as int == sum_to(self.symbol_count@, i2_ as int),
                    forall|i: int| 0 <= i < i2_ ==> #[trigger] self.distribution@[i] == share(self.symbol_count@, i),

                    s <= self.table_size,
                    i2_ == 0 ==> s == 0,
                    i2_ > 0 ==> self.distribution@[i2_ - 1] < (s + 1) * pow2sh(self.table_shift),
                    i2_ > 0 ==> s * pow2sh(self.table_shift) <= self.distribution@[i2_ - 1] < 32768,
                    forall|j: int| 1 <= j <= s ==> 0 <= #[trigger] self.decoder_table@[j] && self.decoder_table@[j] + 1 < i2_
                         && self.distribution@[self.decoder_table@[j] as int] < j * pow2sh(self.table_shift)
                         && self.distribution@[self.decoder_table@[j] + 1] >= j * pow2sh(self.table_shift),
                decreases n - i2_
//@body 2
                proof {
                    lemma_share(self.symbol_count@, n, i2_ as int, self.total_count as int, scale as int);
                    if i2_ > 0 { lemma_share(self.symbol_count@, n, i2_ - 1, self.total_count as int, scale as int); }
                    sum_bounds(self.symbol_count@, i2_ as int, i2_ as int + 1); sum_bounds(self.symbol_count@, i2_ as int + 1, n);
                    assert(forall|z: u32| (#[trigger] (z >> 16u32)) == z / 65536) by (bit_vector);
                }
//@ahead 3
                proof { lemma_shr(self.distribution@[i2_ as int], self.table_shift); lemma_w(self.distribution@[i2_ as int] as int, self.table_shift, self.table_size as int);
                    if i2_ > 0 { assert(self.distribution@[i2_ - 1] == share(self.symbol_count@, i2_ - 1)); lemma_share_order(self.symbol_count@, n, i2_ - 1, i2_ as int, self.total_count as int); lemma_le(s as int, w as int, self.distribution@[i2_ as int] as int, pow2sh(self.table_shift)); } else { lemma_share(self.symbol_count@, n, 0, self.total_count as int, scale as int); } }
//@loop 3
                    invariant static_ok(*self), n == self.symbols, self.symbols == old(self).symbols, self.compress == old(self).compress, self.update_cycle == old(self).update_cycle,
                        has_table(self.symbols, self.compress), k == i2_,
                        0 <= i2_ < n, all_pos(self.symbol_count@),
                    self.symbol_count@ == halved(old(self).symbol_count@, old(self).total_count + old(self).update_cycle),
                    self.total_count as int == sum_to(self.symbol_count@, n), 1 <= self.total_count <= 32768,

                        forall|i: int| 0 <= i <= i2_ ==> #[trigger] self.distribution@[i] == share(self.symbol_count@, i),
                        s <= w <= self.table_size,
                        w as int == self.distribution@[i2_ as int] as int / pow2sh(self.table_shift),
                        w * pow2sh(self.table_shift) <= self.distribution@[i2_ as int] < (w + 1) * pow2sh(self.table_shift),
                        self.distribution@[i2_ as int] < 32768,
                        i2_ == 0 ==> w == 0,
                        i2_ > 0 ==> self.distribution@[i2_ - 1] < self.distribution@[i2_ as int],
                        i2_ > 0 ==> self.distribution@[i2_ - 1] < (s + 1) * pow2sh(self.table_shift),
                        forall|j: int| 1 <= j <= s ==> 0 <= #[trigger] self.decoder_table@[j] && self.decoder_table@[j] < i2_
                             && self.distribution@[self.decoder_table@[j] as int] < j * pow2sh(self.table_shift)
                             && self.distribution@[self.decoder_table@[j] + 1] >= j * pow2sh(self.table_shift),
                    decreases w - s
//@tail 3
                    proof {
                        let p = pow2sh(self.table_shift);
                        assert(s * p <= w * p) by(nonlinear_arith) requires 0 <= s <= w, p >= 0;
                        assert((s + 1) * p == s * p + p) by(nonlinear_arith);
                    }
//@after 3
                proof {
                        let p = pow2sh(self.table_shift);
                        let w2 = w as int;
                        if s > w2 { assert((w2 + 1) * p <= s * p) by(nonlinear_arith) requires w2 + 1 <= s, p >= 0; }
                }
//@loop 4
                invariant static_ok(*self), n == self.symbols, self.symbols == old(self).symbols, self.compress == old(self).compress, self.update_cycle == old(self).update_cycle,
                    has_table(self.symbols, self.compress), all_pos(self.symbol_count@),
                    self.symbol_count@ == halved(old(self).symbol_count@, old(self).total_count + old(self).update_cycle),
                    self.total_count as int == sum_to(self.symbol_count@, n), 1 <= self.total_count <= 32768,

                    forall|i: int| 0 <= i < n ==> #[trigger] self.distribution@[i] == share(self.symbol_count@, i),
                    s <= self.table_size + 1,
                    self.decoder_table@[0] == 0,
                    self.distribution@[n - 1] < (s + 1) * pow2sh(self.table_shift),
                    forall|j: int| 1 <= j <= s ==> 0 <= #[trigger] self.decoder_table@[j] && self.decoder_table@[j] < n
                         && self.distribution@[self.decoder_table@[j] as int] < j * pow2sh(self.table_shift)
                         && (self.decoder_table@[j] + 1 < n ==> self.distribution@[self.decoder_table@[j] + 1] >= j * pow2sh(self.table_shift)),
                decreases self.table_size + 1 - s
//@tail 4
                proof {
                    let p = pow2sh(self.table_shift);
                    assert((s + 1) * p == s * p + p) by(nonlinear_arith);
                }
//@before 0 self.update_cycle =
        proof {
            assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] self.distribution@[i] < #[trigger] self.distribution@[j] by {
                lemma_share_order(self.symbol_count@, n, i, j, self.total_count as int);
            }
            let scale = 0x8000_0000int / self.total_count as int;
            lemma_share(self.symbol_count@, n, n - 1, self.total_count as int, scale);
            lemma_share(self.symbol_count@, n, 0, self.total_count as int, scale);
            assert(self.distribution@ =~= shares_of(self.symbol_count@));
            assert(self.distribution@[n - 1] == share(self.symbol_count@, n - 1));
            assert(self.distribution@[0] == share(self.symbol_count@, 0));
            if has_table(self.symbols, self.compress) {
                assert forall|j: int| 0 <= j <= self.table_size + 1 implies #[trigger] bracket(*self, j) by {
                    if j == 0 { assert(self.distribution@[0] < self.distribution@[1]); } else { assert(self.decoder_table@[j] < n); }
                }
            }
            assert(forall|z: u32| (#[trigger] (z >> 2u32)) == z / 4) by (bit_vector);
            assert(forall|z: u32| z < 10000 ==> (#[trigger] (z << 3u32)) == z * 8) by (bit_vector);
        }
//@endfn
//@fn models.rs ArithmeticModel::new
//@ret r
//@sig
        requires 2 <= symbols <= 2048, init_table@.len() == 0
        ensures wf(r), r.symbols == symbols, r.compress == compress,
            r.symbol_count@ == Seq::new(symbols as nat, |i: int| 1u32), r.distribution@ == shares_of(r.symbol_count@), r.total_count == symbols,
            r.update_cycle == (symbols + 6) / 2, r.symbols_until_update == r.update_cycle,
//@start
        proof { assert(1u32 << 11u32 == 2048) by(bit_vector); }
//@loop 0
                invariant model.symbols == symbols, 16 < symbols <= 2048, 3 <= table_bits <= 9, table_bits > 3 ==> symbols > p2(table_bits + 1),
                decreases 10 - table_bits
//@body 0
                proof { lemma_p2(table_bits + 2); lemma_p2(11); reveal_with_fuel(p2, 13); assert(table_bits < 9); }
//@after 0
            proof { lemma_p2(table_bits as int); lemma_sizes(table_bits); }
//@loop 1
                invariant init_table@.len() > 0, init_table@.len() == 0,
//@loop 2
                invariant 2 <= model.symbols <= 2048, model.symbol_count@.len() == model.symbols, model.distribution@.len() == model.symbols,
                   model.symbols == symbols, model.compress == compress, model.total_count == 0, model.update_cycle == symbols, model.last_symbol == symbols - 1,
                   forall|i: int| 0 <= i < k ==> model.symbol_count@[i] == 1,
                   static_ok(model),
//@before 0 model.update()
        proof {
            assert(model.symbol_count@ =~= Seq::new(symbols as nat, |i: int| 1u32));
            sum_ones(model.symbol_count@, symbols as int);
            assert(forall|z: u32| (#[trigger] (z >> 1u32)) == z / 2) by (bit_vector);
        }
//@behind 0 model.update()
        let ghost m0 = model;
        proof { sum_ones(model.symbol_count@, symbols as int); sum_bounds(model.symbol_count@, 0, symbols as int); }
//@behind 0 model.update_cycle = (model.symbols + 6) >> 1
        proof {
            assert forall|j: int| has_table(symbols, compress) && 0 <= j <= model.table_size + 1 implies #[trigger] bracket(model, j) by { assert(bracket(m0, j)); }
        }
//@endfn
}

// ---------------------------------------------------------------- bits
pub open spec fn bit_wf(m: ArithmeticBitModel) -> bool {
    1 <= m.bit_0_count && m.bit_0_count + 1 <= m.bit_count + m.update_cycle - m.bits_until_update
    && m.bit_count <= 8192 && 4 <= m.update_cycle <= 64 && 1 <= m.bits_until_update <= m.update_cycle
    && 1 <= m.bit_0_prob <= 8191
}
pub open spec fn bit_halves(t: int) -> bool { t > 8192 }
pub open spec fn bit_c0(c0: int, t: int) -> int { if bit_halves(t) { (c0 + 1) / 2 } else { c0 } }
pub open spec fn bit_c(c0: int, t: int) -> int { if bit_halves(t) { if (c0 + 1) / 2 == (t + 1) / 2 { (t + 1) / 2 + 1 } else { (t + 1) / 2 } } else { t } }
pub open spec fn bit_updated(a: ArithmeticBitModel, b: ArithmeticBitModel) -> bool {
    let t = a.bit_count + a.update_cycle;
    b.bit_0_count == bit_c0(a.bit_0_count as int, t) && b.bit_count == bit_c(a.bit_0_count as int, t)
    && b.bit_0_prob == (b.bit_0_count * (0x8000_0000int / b.bit_count as int)) / 0x40000
    && b.update_cycle == (if 5 * a.update_cycle / 4 > 64 { 64 } else { 5 * a.update_cycle / 4 }) && b.bits_until_update == b.update_cycle
}
pub proof fn lemma_bit(c0: int, c: int)
    requires 1 <= c0 < c <= 8192
    ensures ({ let s = 0x8000_0000int / c; 0x40000 <= s && c0 * s < 0x8000_0000 && 0x40000 <= c0 * s && 1 <= (c0 * s) / 0x40000 <= 8191 })
{
    let s = 0x8000_0000int / c;
    assert(s >= 0x40000) by(nonlinear_arith) requires s == 0x8000_0000int / c, 1 <= c <= 8192;
    assert(s * c <= 0x8000_0000) by(nonlinear_arith) requires s == 0x8000_0000int / c, 1 <= c;
    assert(c0 * s <= s * c - s) by(nonlinear_arith) requires c0 + 1 <= c, s >= 0;
    assert(c0 * s >= s) by(nonlinear_arith) requires c0 >= 1, s >= 0;
}
//@struct models.rs ArithmeticBitModel
impl ArithmeticBitModel {
//@fn models.rs ArithmeticBitModel::new
//@ret r
//@sig
        ensures bit_wf(r), r.bit_0_count == 1, r.bit_count == 2, r.bit_0_prob == 4096, r.bits_until_update == 4, r.update_cycle == 4,
//@endfn
//@fn models.rs ArithmeticBitModel@Default::default
//@ret r
//@sig
        ensures bit_wf(r), r.bit_0_count == 1, r.bit_count == 2, r.bit_0_prob == 4096, r.bits_until_update == 4, r.update_cycle == 4,
//@start
        proof { assert(1u32 << 12u32 == 4096) by(bit_vector); }
//@endfn
//@fn models.rs ArithmeticBitModel::update
//@sig
        requires 1 <= old(self).bit_0_count, old(self).bit_0_count + 1 <= old(self).bit_count + old(self).update_cycle, old(self).bit_count <= 8192,
            4 <= old(self).update_cycle <= 64,
        ensures bit_wf(*final(self)), bit_updated(*old(self), *final(self)),
//@start
        proof { assert(1u32 << 13u32 == 8192) by(bit_vector); assert(forall|z: u32| (#[trigger] (z >> 1u32)) == z / 2) by (bit_vector);
            assert(forall|z: u32| (#[trigger] (z >> 2u32)) == z / 4) by (bit_vector); assert(forall|z: u32| (#[trigger] (z >> 18u32)) == z / 0x40000) by (bit_vector); }
//@before 0 let scale
        proof { lemma_bit(self.bit_0_count as int, self.bit_count as int); }
//@endfn
}
