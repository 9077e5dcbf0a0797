//@ include rational_spec.inc.rs
//@ fn math/src/support/rational.rs::round_to_rational(nd, rounding)
//@ ensures r.0 == rnum(nd.0@, nd.1@, rounding), r.1 == rden(nd.0@, nd.1@, rounding)
//@ pre broadcast use vx, lem_nbits_b; proof { lem_rshift(nd.0@, nd.1@); }
//@ end
