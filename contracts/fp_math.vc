%file dep/fp_math.rs
%fn fp32_div
%own M03
%ret r
%ens
    r == qdiv(a as int, b_fp32 as int),
%at start
    proof { lemma_shl32(a); }
%closure 1
    -> (r: Option<u64>) ensures r == opt64(x as int)

%fn fp32_mul_floor
%own M03
%ret r
%ens
    r == opt64(mul_floor(a as int, b_fp32 as int)),
%at start
    proof { lemma_mul128(a, b_fp32); lemma_shr32((a * b_fp32) as u128); }
%closure 1
    -> (r: Option<u64>) ensures r == opt64((x >> 32) as int)

%fn fp32_mul_ceil
%own M03
%ret r
%ens
    r == opt64(mul_ceil(a as int, b_fp32 as int)),
%at start
    proof {
        lemma_mul128(a, b_fp32);
        assert forall|y: u128| y >= a * b_fp32 && y - a * b_fp32 < e32() && y as int % e32() == 0 implies (#[trigger] (y >> 32)) == mul_ceil(a as int, b_fp32 as int) by {
            lemma_shr32(y);
            lemma_ceil((a * b_fp32) as u128, y);
        }
    }
%closure 1
    -> (r: Option<u64>) ensures r == opt64((x >> 32) as int)

%fn fp32_ceil_util
%own M03
%ret r
%ens
    x_fp32 <= 0xffff_ffff_ffff_fffe_0000_0000_0000_0001u128 ==> r is Some && r->Some_0 >= x_fp32 && r->Some_0 - x_fp32 < 0x1_0000_0000 && r->Some_0 as int % 0x1_0000_0000 == 0,
%at start
    proof { lemma_ceil_util(x_fp32); }
