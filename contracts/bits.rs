// ---- shifts and masks of packed words ----
pub open spec fn s_mask(n: u32, s: u32) -> u64 { (((1u64 << n) - 1) as u64) << s }

pub proof fn lemma_mask_read(d: u64, b: u32, s: u32)
    requires 1 <= b <= 32, s + b <= 64
    ensures (d & s_mask(b, s)) >> s == (d >> s) & (((1u64 << b) - 1) as u64),
       d & !s_mask(b, s) == d - (d & s_mask(b, s)),
       d & s_mask(b, s) == ((d >> s) & (((1u64 << b) - 1) as u64)) << s,
       d & s_mask(b, s) <= d,
{
    let one: u64 = 1;
    let m: u64 = ((one << b) - 1) as u64;
    assert(one << b >= 1u64) by (bit_vector) requires b <= 32, one == 1u64;
    assert((d & (sub(one << b, 1) << s)) >> s == (d >> s) & sub(one << b, 1)) by (bit_vector) requires 1 <= b <= 32, s + b <= 64, one == 1u64;
    assert(d & !(sub(one << b, 1) << s) == sub(d, d & (sub(one << b, 1) << s))) by (bit_vector) requires one == 1u64;
    assert(d & (sub(one << b, 1) << s) == ((d >> s) & sub(one << b, 1)) << s) by (bit_vector) requires 1 <= b <= 32, s + b <= 64, one == 1u64;
    assert(d & (sub(one << b, 1) << s) <= d) by (bit_vector) requires one == 1u64;
}

pub proof fn lemma_mask_shift0(b: u32)
    requires 1 <= b <= 32
    ensures s_mask(b, 0) == ((1u64 << b) - 1) as u64, s_mask(b, 0) == pow2(b as nat) - 1,
{
    let one: u64 = 1;
    assert((sub(one << b, 1) << 0u32) == sub(one << b, 1)) by (bit_vector) requires one == 1u64;
    assert(one << b >= 1u64) by (bit_vector) requires b <= 32, one == 1u64;
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_monotone(b as nat, 32);
    lemma_u64_shl_is_mul(1u64, b as u64);
}

/// shifting right and masking reads a digit
pub proof fn lemma_digit(d: u64, b: u32, s: u32)
    requires 1 <= b <= 32, s < 64
    ensures (d >> s) == (d as nat) / pow2(s as nat),
        (d >> s) & (((1u64 << b) - 1) as u64) == ((d as nat) / pow2(s as nat)) % pow2(b as nat),
        (d >> s) & (((1u64 << b) - 1) as u64) < pow2(b as nat),
        pow2(b as nat) <= 0x1_0000_0000,
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_monotone(b as nat, 32);
    lemma_u64_shr_is_div(d, s as u64);
    lemma_u64_shl_is_mul(1u64, b as u64);
    lemma_u64_low_bits_mask_is_mod((d >> s), b as nat);
    lemma_pow2_pos(b as nat);
    lemma_mod_bound(((d as nat) / pow2(s as nat)) as int, pow2(b as nat) as int);
}

/// a digit below the modulus survives the mask
pub proof fn lemma_mask_small(x: u64, b: u32)
    requires 1 <= b <= 32, x < pow2(b as nat)
    ensures x & s_mask(b, 0) == x
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_mask_shift0(b);
    lemma_pow2_monotone(b as nat, 32);
    lemma_u64_low_bits_mask_is_mod(x, b as nat);
    lemma_small_mod(x as nat, pow2(b as nat));
}

/// shifting left multiplies, when nothing falls off
pub proof fn lemma_shl(x: u64, s: u32)
    requires s < 64, x * pow2(s as nat) <= 0xffff_ffff_ffff_ffff
    ensures x << s == x * pow2(s as nat)
{
    lemma_u64_shl_is_mul(x, s as u64);
}

pub proof fn lemma_or_disjoint(a: u64, b: u64)
    requires a & b == 0
    ensures a | b == a + b, b | a == a + b, a ^ b == a + b, b ^ a == a + b,
{
    assert(b <= sub(0xffff_ffff_ffff_ffffu64, a)) by (bit_vector) requires a & b == 0;
    assert(a | b == add(a, b) && b | a == add(a, b)) by (bit_vector) requires a & b == 0;
    assert(a ^ b == add(a, b) && b ^ a == add(a, b)) by (bit_vector) requires a & b == 0;
}

/// bits that do not meet: writing them with |, ^ or + is the same
pub proof fn lemma_or_low(x: u64, s: u32, y: u64)
    requires s < 64, y < pow2(s as nat)
    ensures (x << s) | y == (x << s) + y, y | (x << s) == (x << s) + y, (x << s) ^ y == (x << s) + y, y ^ (x << s) == (x << s) + y,
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_monotone(s as nat, 63);
    lemma_u64_shl_is_mul(1u64, s as u64);
    let one: u64 = 1;
    assert(y < one << s);
    let t = x << s;
    assert(t & y == 0) by (bit_vector) requires t == x << s, y < one << s, s < 64, one == 1u64;
    lemma_or_disjoint(t, y);
}

pub proof fn lemma_or_field(d: u64, b: u32, s: u32, v: u64)
    requires 1 <= b <= 32, s + b <= 64, v < pow2(b as nat)
    ensures ({ let m = d & !s_mask(b, s); let t = v << s;
        m | t == m + t && t | m == m + t && m ^ t == m + t && t ^ m == m + t }),
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_monotone(b as nat, 32);
    lemma_u64_shl_is_mul(1u64, b as u64);
    let one: u64 = 1;
    let m = d & !s_mask(b, s);
    let t = v << s;
    assert(m & t == 0) by (bit_vector) requires m == d & !(sub(one << b, 1) << s), t == v << s, v < one << b, 1 <= b <= 32, s + b <= 64, one == 1u64;
    lemma_or_disjoint(m, t);
}
