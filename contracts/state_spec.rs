use crate::state::Side;
use crate::fp_math_spec::*;
use crate::event_queue_spec::*;
pub open spec fn opp(s: Side) -> Side { match s { Side::Bid => Side::Ask, Side::Ask => Side::Bid } }
pub proof fn lemma_side_flag(k: u128)
    ensures
        ((1u128 << 63) & k != 0) == bid_flag(k),
        (k & (1u128 << 63) != 0) == bid_flag(k),
        ((1u128 << 63) & k == (1u128 << 63)) == bid_flag(k),
        (k & (1u128 << 63) == (1u128 << 63)) == bid_flag(k),
        ((k >> 63) & 1 == 1) == bid_flag(k), (k >> 63) & 1 == 0 || (k >> 63) & 1 == 1,
        ((k as u64) & (1u64 << 63) != 0) == bid_flag(k),
        ((1u128 << 63) as u64) == (1u64 << 63), ((1u64 << 63) & (k as u64) != 0) == bid_flag(k),
        ((k as u64) & ((1u128 << 63) as u64) != 0) == bid_flag(k), (((1u128 << 63) as u64) & (k as u64) != 0) == bid_flag(k),
        ((k as u64) >> 63 == 1) == bid_flag(k), ((k as u64) >> 63 == 0) == !bid_flag(k),
        ((k as u64) >= 0x8000_0000_0000_0000u64) == bid_flag(k),
{
    assert((((1u128 << 63) & k != 0) == (k & 0x8000_0000_0000_0000u128 != 0))
        && ((k & (1u128 << 63) != 0) == (k & 0x8000_0000_0000_0000u128 != 0))
        && (((1u128 << 63) & k == (1u128 << 63)) == (k & 0x8000_0000_0000_0000u128 != 0))
        && ((k & (1u128 << 63) == (1u128 << 63)) == (k & 0x8000_0000_0000_0000u128 != 0))
        && (((k >> 63) & 1 == 1) == (k & 0x8000_0000_0000_0000u128 != 0)) && ((k >> 63) & 1 == 0 || (k >> 63) & 1 == 1)
        && (((k as u64) & (1u64 << 63) != 0) == (k & 0x8000_0000_0000_0000u128 != 0))
        && (((1u128 << 63) as u64) == (1u64 << 63)) && (((1u64 << 63) & (k as u64) != 0) == (k & 0x8000_0000_0000_0000u128 != 0))
        && (((k as u64) & ((1u128 << 63) as u64) != 0) == (k & 0x8000_0000_0000_0000u128 != 0)) && ((((1u128 << 63) as u64) & (k as u64) != 0) == (k & 0x8000_0000_0000_0000u128 != 0))
        && (((k as u64) >> 63 == 1) == (k & 0x8000_0000_0000_0000u128 != 0)) && (((k as u64) >> 63 == 0) == (k & 0x8000_0000_0000_0000u128 == 0))
        && (((k as u64) >= 0x8000_0000_0000_0000u64) == (k & 0x8000_0000_0000_0000u128 != 0))) by (bit_vector);
}
/// the smallest multiple of t that is >= p
pub open spec fn up(t: int, p: int) -> int { t * (p / t + if p % t != 0 { 1int } else { 0int }) }
pub open spec fn is_round_down(t: int, p: int, r: int) -> bool { r % t == 0 && r <= p && p < r + t }
pub open spec fn is_round_up(t: int, p: int, r: int) -> bool { r % t == 0 && r >= p && r < p + t }
pub proof fn lemma_round(t: int, p: int)
    requires t > 0, p >= 0,
    ensures
        is_round_down(t, p, t * (p / t)), is_round_up(t, p, up(t, p)), 0 <= p / t <= p, 0 <= t * (p / t) <= p,
        0 <= p % t < t, p % t <= p, p - p % t == t * (p / t), t * (p / t) == (p / t) * t,
        p % t == 0 ==> up(t, p) == p, p % t != 0 ==> up(t, p) == p - p % t + t && up(t, p) == (p / t + 1) * t && up(t, p) == t * (p / t + 1),
        p % t != 0 ==> up(t, p) == t * (p / t) + t,
        (p + t - 1) / t == (if p % t != 0 { p / t + 1 } else { p / t }),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, t);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, t);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p / t, t);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p / t + 1, t);
    assert(t * (p / t) == (p / t) * t && t * (p / t + 1) == (p / t + 1) * t && t * (p / t + 1) == t * (p / t) + t) by (nonlinear_arith);
    assert(0 <= p / t <= p) by (nonlinear_arith) requires t > 0, p >= 0;
    assert(t * (p / t) >= 0) by (nonlinear_arith) requires t > 0, p / t >= 0;
    let c = if p % t != 0 { p / t + 1 } else { p / t };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + t - 1, t, c, p + t - 1 - c * t);
}
