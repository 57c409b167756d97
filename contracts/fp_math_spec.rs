// Mathematical meaning of the fixed-point helpers (fp32: value * 2^32).
pub open spec fn e32() -> int { 0x1_0000_0000 }
pub open spec fn e64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn opt64(x: int) -> Option<u64> { if 0 <= x < e64() { Some(x as u64) } else { None } }
pub open spec fn optu128(x: int) -> Option<u128> { if 0 <= x < e64() * e64() { Some(x as u128) } else { None } }
/// floor(a / (b / 2^32))
pub open spec fn qdiv(a: int, b: int) -> Option<u64> { if b == 0 { None } else { opt64((a * e32()) / b) } }
/// floor(a * b / 2^32)
pub open spec fn mul_floor(a: int, b: int) -> int { (a * b) / e32() }
/// ceil(a * b / 2^32)
pub open spec fn mul_ceil(a: int, b: int) -> int { (a * b + e32() - 1) / e32() }
pub open spec fn qdiv64(a: int, b: int) -> Option<u64> { if b == 0 { None } else { opt64((a * e64()) / b) } }
pub open spec fn mul_floor64(a: int, b: int) -> int { (a * b) / e64() }

pub proof fn lemma_shl32(a: u64)
    ensures (a as u128) << 32 == a * e32(), (a as u128) << 32u128 == a * e32(),
{
    let x = a as u128;
    assert(x << 32 == mul(x, 0x1_0000_0000u128) && x << 32 == x << 32u128) by (bit_vector) requires x == a as u128;
    assert(x * 0x1_0000_0000u128 <= 0xffff_ffff_ffff_ffffu128 * 0x1_0000_0000u128) by (nonlinear_arith) requires x <= 0xffff_ffff_ffff_ffffu128;
}
pub proof fn lemma_shl64(a: u64)
    ensures (a as u128) << 64 == a * e64(),
{
    let x = a as u128;
    assert(x << 64 == mul(x, 0x1_0000_0000_0000_0000u128)) by (bit_vector) requires x == a as u128;
    assert(x * 0x1_0000_0000_0000_0000u128 <= 0xffff_ffff_ffff_ffffu128 * 0x1_0000_0000_0000_0000u128) by (nonlinear_arith) requires x <= 0xffff_ffff_ffff_ffffu128;
}
pub proof fn lemma_mul128(a: u64, b: u64)
    ensures 0 <= a * b <= 0xffff_ffff_ffff_fffe_0000_0000_0000_0001,
{
    assert(0 <= a * b <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires a <= 0xffff_ffff_ffff_ffff, b <= 0xffff_ffff_ffff_ffff;
}
pub proof fn lemma_shr32(x: u128)
    ensures x >> 32 == x / 0x1_0000_0000u128,
{
    assert(x >> 32 == x / 0x1_0000_0000u128) by (bit_vector);
}
pub proof fn lemma_shr64(x: u128)
    ensures x >> 64 == x / 0x1_0000_0000_0000_0000u128,
{
    assert(x >> 64 == x / 0x1_0000_0000_0000_0000u128) by (bit_vector);
}
pub proof fn lemma_ceil(x: u128, y: u128)
    requires x <= y, y - x < e32(), y as int % e32() == 0,
    ensures y as int / e32() == (x + e32() - 1) / e32(),
{
    let q = y as int / e32();
    assert(y == q * e32()) by (nonlinear_arith) requires q == y as int / 0x1_0000_0000, y as int % 0x1_0000_0000 == 0, e32() == 0x1_0000_0000;
    assert(x + e32() - 1 == q * e32() + (e32() - 1 - (y - x)));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + e32() - 1, e32(), q, e32() - 1 - (y - x));
}
pub proof fn lemma_ceil_util(x: u128)
    ensures ({
        let l = x as u32;
        let m = !l;
        let p = if m == 0xffff_ffff { 0u32 } else { (m + 1) as u32 };
        (x + p) % 0x1_0000_0000 == 0
    }),
{
    let l = x as u32;
    let m = !l;
    assert(l as u128 == x % 0x1_0000_0000u128) by (bit_vector) requires l == x as u32;
    assert(!l == sub(0xffff_ffffu32, l)) by (bit_vector);
}
