//@ fn math/src/stableswap/math.rs::calculate_y_internal(xp, d, amplification)
//@ meta inst=::<64>
//@ attr #[verifier::spinoff_prover]
//@ meta gen.xp=gen_xp(r, g)
//@ meta gen.d=gen_d(r, g, xp)
//@ meta gen.amplification=gen_amp(r, g)
//@ requires xp@.len() < usize::MAX
//@ ensures okint(r) == spec_y(ints(xp@), d as int, amplification as int, D as int)
//@ pre broadcast use vx, lem_small, lem_srt_len;
//@ let ghost xi = ints(xp@);
//@ proof { assert(xi.take(0) =~= seq![]); assert(xi.take(xi.len() as int) =~= xi); if noz(xi) { lem_srt_b(xi); } lem_srt(seq![]); assert(srt(seq![]) =~= seq![]); }
//@ loop 0
//@ invariant xi == ints(xp@), $a@.len() <= $k, $a@.len() == 0 <==> allz(xi.take($k as int)), $a@.len() == $k <==> noz(xi.take($k as int)),
//@ noz(ints256($a@)), bnd(ints256($a@)), noz(xi.take($k as int)) ==> ints256($a@) =~= xi.take($k as int),
//@ loop-start 0
//@ broadcast use vx, lem_small, lem_srt_len; proof { lem_take(xi, $k as int); }
//@ let ghost a0 = ints256($a@);
//@ loop-end 0
//@ proof { if ints256($a@).len() > a0.len() { lem_push(a0, ints256($a@), xi[$k - 1]); } else { assert(ints256($a@) =~= a0); } }
//@ loop 1
//@ invariant bnd(ints256(xp_hp@)), noz(ints256(xp_hp@)), s_hp@ == sum(ints256(xp_hp@), $k as int), s_hp@ <= u128::MAX * (u64::MAX + 1),
//@ loop-start 1
//@ broadcast use vx, lem_small, lem_srt_len; proof { assert(ints256(xp_hp@)[$k as int] == xp_hp@[$k as int]@); lem_sum(ints256(xp_hp@), $k + 1); lem_small(u128::MAX as int, $k + 1); }
//@ loop 2
//@ invariant fold(d as int, n_coins_hp@, ints256(xp_hp@), $k as int) == Some(c@),
//@ loop-start 2
//@ broadcast use vx, lem_small, lem_srt_len; proof { assert(ints256(xp_hp@)[$k as int] == xp_hp@[$k as int]@); lem_small(xp_hp@[$k as int]@, n_coins_hp@); lem_pos(c@, d as int); lem_fold_none(d as int, n_coins_hp@, ints256(xp_hp@), $k + 1, xp_hp@.len() as int); }
//@ loop 3
//@ invariant yiter(d as int, c@, b@, d as int, D as int) == yiter(y@, c@, b@, d as int, D - $k),
//@ loop-start 3
//@ broadcast use vx, lem_small, lem_srt_len; proof { lem_pos(y@, y@); }
//@ end
