//! C04: a slice is accepted as a fixed-size message exactly when it encodes one.
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

#[macro_export]
macro_rules! c04_gen {
    ($( { $n:ident, $($p:ident)::+, $U:ty, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (7) = |s| {
                let mut buf: [$U; $M + 2] = any_buf(s);
                let n = s.upto($M + 2);
                if s.bool() {
                    force(&mut buf, &[$($h),*]);
                }
                let legal = header(&buf, &[$($h),*], &[$($ne),*])
                    $( && <$t as Val>::from_code(extract(&buf, &[$($seg),*])).is_some() )*;
                let ok = $($p)::+::<&[$U]>::try_from(&buf[..n]).is_ok();
                cov!(s, ok && n == $M, "accepted");
                cov!(s, !ok && n > $M, "rejected");
                cov!(s, legal && n + 1 == $M, "truncated");
                post!(ok == (n >= $M && legal), stringify!($n));
            }
        )* }
    };
}
crate::for_each_fixed!(c04_gen);
crate::natives! {}
