spec
/// the parts packed into a national number
pub open spec fn nn_value(n: national_number__NationalNumber) -> u64 { n.value & 0x00ff_ffff_ffff_ffff }
pub open spec fn nn_zeros(n: national_number__NationalNumber) -> nat { (n.value >> 56) as nat }
pub open spec fn zs(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
/// the digits a national number stands for
pub open spec fn nn_str(n: national_number__NationalNumber) -> Seq<char> { zs(nn_zeros(n)) + dec(nn_value(n) as nat) }
/// the leading zeros of s that are not its last digit
pub open spec fn nn_lead(s: Seq<char>) -> nat {
    if lead(s, '0') == s.len() && s.len() > 0 { (lead(s, '0') - 1) as nat } else { lead(s, '0') }
}
pub proof fn lemma_lead(s: Seq<char>, c: char)
    ensures lead(s, c) <= s.len(), forall|i: int| 0 <= i < lead(s, c) ==> s[i] == c,
        lead(s, c) < s.len() ==> s[lead(s, c) as int] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] == c {
        lemma_lead(s.skip(1), c);
        assert forall|i: int| 0 <= i < lead(s, c) implies s[i] == c by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
pub proof fn lemma_lead_is(s: Seq<char>, c: char, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == c, k < s.len() ==> s[k] != c
    ensures lead(s, c) == k
{
    lemma_lead(s, c);
    if lead(s, c) < k { assert(s[lead(s, c) as int] == c); }
}
/// zeros and then a number without leading zeros
pub proof fn lemma_nn(s: Seq<char>, k: int)
    requires digits(s), s.len() > 0, k == nn_lead(s)
    ensures 0 <= k < s.len(), dec_val(s) == dec_val(s.skip(k)), zs(k as nat) + dec(dec_val(s)) =~= s, int_text(s.skip(k)) == s.skip(k), digits(s.skip(k))
{
    lemma_lead(s, '0');
    let t = s.skip(k);
    lemma_dec_val_zeros(s, k);
    assert forall|i: int| 0 <= i < t.len() implies is_d(#[trigger] t[i]) by { assert(t[i] == s[i + k]); }
    assert(t[0] == s[k]);
    if t[0] == '0' {
        assert(t.len() == 1);
        assert(t.drop_last() =~= Seq::<char>::empty());
        assert(dec_val(t.drop_last()) == 0);
        assert(dec_val(t) == 0);
        assert(dec(0) =~= t);
    } else {
        lemma_dec_inv(t);
    }
    assert(s =~= zs(k as nat) + t);
}
/// the texts that are national numbers, and their digits
pub open spec fn nat_ok(s: Seq<char>) -> bool { !s.contains('+') && nn_lead(s) <= 255 && int_ok(s.skip(nn_lead(s) as int), 0x00ff_ffff_ffff_ffff) }
pub open spec fn nat_of(s: Seq<char>) -> Seq<char> { zs(nn_lead(s)) + dec(dec_val(int_text(s.skip(nn_lead(s) as int)))) }
/// of digits they are those digits
pub broadcast proof fn lemma_nat_of(s: Seq<char>)
    requires digits(s), s.len() > 0
    ensures #[trigger] nat_of(s) == s
{
    lemma_lead(s, '0');
    lemma_nn(s, nn_lead(s) as int);
}
/// a national number read from text has its digits
pub proof fn lemma_nat_digits(s: Seq<char>)
    requires nat_ok(s)
    ensures digits(s), s.len() > 0, nat_of(s) == s, blen(s) == s.len()
{
    let k = nn_lead(s) as int;
    let t = s.skip(k);
    lemma_lead(s, '0');
    if t.len() > 0 { assert(t[0] == s[k]); assert(s.contains(s[k])); }
    assert(int_text(t) == t);
    assert forall|i: int| 0 <= i < s.len() implies is_d(#[trigger] s[i]) by { if i >= k { assert(s[i] == t[i - k]); } }
    lemma_nat_of(s);
    lemma_ascii_blen(s);
}
pub proof fn lemma_int_ok_less(s: Seq<char>, a: nat, b: nat)
    requires a <= b
    ensures int_ok(s, a) == (int_ok(s, b) && dec_val(int_text(s)) <= a)
{
}
pub proof fn lemma_zeros_blen(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == '0'
    ensures blen(s.take(k)) == k, is_b(s, k), ci(s, k) == k, blen(s) >= s.len(), k == s.len() ==> blen(s) == k
{
    assert forall|j: int| 0 <= j < k implies (#[trigger] s.take(k)[j] as u32) < 0x80 by { assert(s.take(k)[j] == s[j]); }
    assert(ascii(s.take(k)));
    lemma_ascii_blen(s.take(k));
    assert(s.take(k).len() == k);
    lemma_ci(s, k);
    lemma_blen_zero(s);
    if k == s.len() { assert(s.take(k) =~= s); }
}
pub proof fn lemma_pack(value: u64, zeros: u8)
    requires value < 0x0100_0000_0000_0000
    ensures (((zeros as u64) << 56) | value) & 0x00ff_ffff_ffff_ffff == value, (((zeros as u64) << 56) | value) >> 56 == zeros
{
    assert((((zeros as u64) << 56) | value) & 0x00ff_ffff_ffff_ffff == value) by (bit_vector) requires value < 0x0100_0000_0000_0000;
    assert((((zeros as u64) << 56) | value) >> 56 == zeros) by (bit_vector) requires value < 0x0100_0000_0000_0000;
}
pub proof fn lemma_unpack(n: u64)
    ensures n & 0x00ff_ffff_ffff_ffff < 0x0100_0000_0000_0000, n >> 56 <= 255
{
    assert(n & 0x00ff_ffff_ffff_ffff < 0x0100_0000_0000_0000) by (bit_vector);
    assert(n >> 56 <= 255) by (bit_vector);
}

spec
/// the same bits written in other ways
pub proof fn lemma_pack_ways(value: u64, zeros: u8)
    ensures 1u64 << 56 == 0x0100_0000_0000_0000u64, (value >> 56 == 0) == (value < 0x0100_0000_0000_0000),
        (value & 0xff00_0000_0000_0000 == 0) == (value < 0x0100_0000_0000_0000), (value & 0x00ff_ffff_ffff_ffff == value) == (value < 0x0100_0000_0000_0000),
        ((zeros as u64) << 56) <= 0xff00_0000_0000_0000, ((zeros as u64) << 56) == (zeros as u64) * 0x0100_0000_0000_0000,
        value < 0x0100_0000_0000_0000 ==> ((zeros as u64) << 56) + value == (((zeros as u64) << 56) | value),
        value < 0x0100_0000_0000_0000 ==> (((zeros as u64) << 56) ^ value) == (((zeros as u64) << 56) | value),
        (value | ((zeros as u64) << 56)) == (((zeros as u64) << 56) | value), (value ^ ((zeros as u64) << 56)) == (((zeros as u64) << 56) ^ value),
{
    let z = zeros as u64;
    assert(1u64 << 56 == 0x0100_0000_0000_0000u64) by (bit_vector);
    assert((value >> 56 == 0) == (value < 0x0100_0000_0000_0000)) by (bit_vector);
    assert((value & 0xff00_0000_0000_0000 == 0) == (value < 0x0100_0000_0000_0000)) by (bit_vector);
    assert((value & 0x00ff_ffff_ffff_ffff == value) == (value < 0x0100_0000_0000_0000)) by (bit_vector);
    assert((z << 56) <= 0xff00_0000_0000_0000) by (bit_vector) requires z <= 255;
    assert((z << 56) == mul(z, 0x0100_0000_0000_0000)) by (bit_vector) requires z <= 255;
    assert(z * 0x0100_0000_0000_0000 <= 0xff00_0000_0000_0000) by (nonlinear_arith) requires z <= 255;
    if value < 0x0100_0000_0000_0000 {
        assert(add(z << 56, value) == ((z << 56) | value)) by (bit_vector) requires z <= 255, value < 0x0100_0000_0000_0000;
        assert(((z << 56) ^ value) == ((z << 56) | value)) by (bit_vector) requires z <= 255, value < 0x0100_0000_0000_0000;
    }
    assert((value | (z << 56)) == ((z << 56) | value)) by (bit_vector);
    assert((value ^ (z << 56)) == ((z << 56) ^ value)) by (bit_vector);
}
pub proof fn lemma_unpack_ways(n: u64)
    ensures 1u64 << 56 == 0x0100_0000_0000_0000u64, n % 0x0100_0000_0000_0000 == n & 0x00ff_ffff_ffff_ffff, n / 0x0100_0000_0000_0000 == n >> 56,
        ((n << 8) >> 8) == n & 0x00ff_ffff_ffff_ffff, ((n >> 56) & 0xff) == n >> 56, n & !(0xffu64 << 56) == n & 0x00ff_ffff_ffff_ffff,
        n & (u64::MAX >> 8) == n & 0x00ff_ffff_ffff_ffff, n & 0xff00_0000_0000_0000 == n - (n & 0x00ff_ffff_ffff_ffff), (n & 0xff00_0000_0000_0000) >> 56 == n >> 56,
        (n >> 56) << 56 == n & 0xff00_0000_0000_0000, ((n >> 56) as u8) as u64 == n >> 56,
{
    assert(1u64 << 56 == 0x0100_0000_0000_0000u64) by (bit_vector);
    assert(n % 0x0100_0000_0000_0000 == n & 0x00ff_ffff_ffff_ffff) by (bit_vector);
    assert(n / 0x0100_0000_0000_0000 == n >> 56) by (bit_vector);
    assert(((n << 8) >> 8) == n & 0x00ff_ffff_ffff_ffff) by (bit_vector);
    assert(((n >> 56) & 0xff) == n >> 56) by (bit_vector);
    assert(n & !(0xffu64 << 56) == n & 0x00ff_ffff_ffff_ffff) by (bit_vector);
    assert(n & (0xffff_ffff_ffff_ffffu64 >> 8) == n & 0x00ff_ffff_ffff_ffff) by (bit_vector);
    assert(n & 0xff00_0000_0000_0000 == sub(n, n & 0x00ff_ffff_ffff_ffff)) by (bit_vector);
    assert(n & 0x00ff_ffff_ffff_ffff <= n) by (bit_vector);
    assert((n & 0xff00_0000_0000_0000) >> 56 == n >> 56) by (bit_vector);
    assert((n >> 56) << 56 == n & 0xff00_0000_0000_0000) by (bit_vector);
    assert(n >> 56 <= 255) by (bit_vector);
}

fn national_number::NationalNumber::new (value, zeros)
  ensures[*,C04] r is Ok == (value < 0x0100_0000_0000_0000)
  ensures[*,C04] r is Ok ==> nn_value(r->Ok_0) == value && nn_zeros(r->Ok_0) == zeros
  ensures[*,C04] r is Err ==> r->Err_0 is TooLong
  start proof { lemma_pack_ways(value, zeros); if value < 0x0100_0000_0000_0000 { lemma_pack(value, zeros); } }

fn national_number::NationalNumber::value (n)
  ensures[*,C04] r == nn_value(n), r < 0x0100_0000_0000_0000
  start proof { lemma_unpack(n.value); lemma_unpack_ways(n.value); }

fn national_number::NationalNumber::zeros (n)
  ensures[*,C04] r == nn_zeros(n)
  start proof { lemma_unpack(n.value); lemma_unpack_ways(n.value); }

fn national_number::<impl std::convert::From<national_number::NationalNumber> for u64>::from (n)
  ensures[C04] r == nn_value(n)

fn <national_number::NationalNumber as std::fmt::Display>::fmt (n, f)
  ensures[*,C03,C04,C14,C22] wrote(*old(f), *final(f), r, nn_str(n))
  loop 0 for RangeV<u8>
    invariant it0.end == nn_zeros(n), it0.start <= it0.end,
      f.total@ == old(f).total@, f@ == old(f)@ + zs(it0.start as nat)
    after assert((old(f)@ + zs(nn_zeros(n))) + dec(nn_value(n) as nat) =~= old(f)@ + nn_str(n));
    lensures it0.start == it0.end, f@ == old(f)@ + zs(it0.start as nat), f.total@ == old(f).total@
    ldecreases it0.end - it0.start
    head assert(zs(it0.start as nat).push('0') =~= zs((it0.start + 1) as nat));
  start proof { lemma_unpack(n.value); assert(zs(0) =~= Seq::<char>::empty()); }

fn <national_number::NationalNumber as std::str::FromStr>::from_str (s)
  ensures[*,C03,C04,C22] r is Ok == nat_ok(s@)
  ensures[*,C03,C04,C22] r is Ok ==> nn_str(r->Ok_0) =~= nat_of(s@)
  start hide(digits); hide(ascii); hide(int_ok); hide(int_text); hide(is_b); hide(ci); hide(dec); hide(dec_val);
  loop 0 iter take_while count
    invariant it0@ == s@.skip(res0 as int), 0 <= res0 <= s@.len(), forall|i: int| 0 <= i < res0 ==> s@[i] == '0'
    lensures res0 <= s@.len(), forall|i: int| 0 <= i < res0 ==> s@[i] == '0', res0 < s@.len() ==> s@[res0 as int] != '0'
    ldecreases it0@.len()
    after proof {
      lemma_lead_is(s@, '0', res0 as int);
      lemma_zeros_blen(s@, res0 as int);
      if res0 > 0 { lemma_zeros_blen(s@, res0 - 1); }
      lemma_int_ok_less(s@.skip(nn_lead(s@) as int), 0x00ff_ffff_ffff_ffff, u64::MAX as nat);
    }
