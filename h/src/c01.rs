//! C01: getters return exactly the bits of the wire format.
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

#[macro_export]
macro_rules! c01_gen {
    ($( { $n:ident, $($p:ident)::+, $U:ty, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (7) = |s| {
                let mut buf: [$U; $M + 2] = any_buf(s);
                let n = s.between($M, $M + 2);
                force(&mut buf, &[$($h),*]);
                pre!(s, header(&buf, &[$($h),*], &[$($ne),*]));
                $( pre!(s, <$t as Val>::from_code(extract(&buf, &[$($seg),*])).is_some()); )*
                let r = $($p)::+::<&[$U]>::try_from(&buf[..n]);
                cov!(s, r.is_ok() && n == $M, "accepted");
                if let Ok(m) = r {
                    $( {
                        let code = extract(&buf, &[$($seg),*]);
                        post!(Some(m.$g()) == <$t as Val>::from_code(code), concat!(stringify!($n), ".", stringify!($g)));
                    } )*
                }
            }
        )* }
    };
}
crate::for_each_fixed!(c01_gen);
crate::natives! {}
