//! floats: what ryu is given and what is done with what it returns (ryu itself is replaced by its contract)
use crate::pre::*;
macro_rules! float { ($h:ident $t:ty, $bits:ident, $f:ident) => {
    /// any float: capacity, previous length
    #[no_mangle] pub fn $h() {
        let x = <$t>::from_bits($bits());
        let b = start(p(0), p(1));
        let mut o = [0u8; 64];
        // decided on the bits
        let e = x.to_bits() >> (<$t>::MANTISSA_DIGITS - 1); let m = x.to_bits() << (1 + (core::mem::size_of::<$t>() * 8) as u32 - <$t>::MANTISSA_DIGITS);
        let max = (1 << (core::mem::size_of::<$t>() * 8 - <$t>::MANTISSA_DIGITS as usize)) - 1;
        if e & max == max { if m != 0 { lit("NaN") } else if e > max { lit("-inf") } else { lit("inf") } }
        else { let n = unsafe { ryu::raw::$f(x, o.as_mut_ptr()) }; lit_bytes(&o[..n]); }
        finish(b, x);
    }
} }
float!(h_f32 f32, u32_, format32);
float!(h_f64 f64, u64_, format64);
