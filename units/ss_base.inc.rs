pub type Balance = u128;
//@ fn math/src/stableswap/math.rs::calculate_ann(n, amplification)
//@ ensures okint(r) == fit128(amplification * n)
//@ end
//@ fn math/src/stableswap/math.rs::abs_diff(d0, d1)
//@ ensures r@ == iabs(d0@ - d1@)
//@ pre broadcast use vx, lem_small, lem_srt_len;
//@ end
//@ fn math/src/stableswap/math.rs::has_converged(v0, v1, precision)
//@ ensures r == ((v1@ <= v0@ && v0@ - v1@ < precision@) || (v1@ > v0@ && v1@ - v0@ <= precision@))
//@ pre broadcast use vx, lem_small, lem_srt_len;
//@ end
