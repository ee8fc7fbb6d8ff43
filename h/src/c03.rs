//! C03: constructors give the canonical message for any storage content and size.
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

#[macro_export]
macro_rules! c03_gen {
    ($( { $n:ident, $($p:ident)::+, $U:ty, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (10) = |s| {
                let canon: [$U; $M] = [$($c),*];
                let mut st: [$U; $M + 2] = any_buf(s);
                let old = st;
                let n = s.upto($M + 2);
                {
                    let r = $($p)::+::<&mut [$U]>::try_new_with_buffer(&mut st[..n]);
                    cov!(s, r.is_ok() && n == $M, "fits exactly");
                    cov!(s, r.is_err(), "too small");
                    post!(r.is_err() == (n < $M), concat!(stringify!($n), ": overflow exactly when too small"));
                    if let Ok(m) = r {
                        post!(same(m.data(), &canon[..]), concat!(stringify!($n), ": canonical data over dirty storage"));
                        post!($($p)::+::<&[$U]>::try_from(m.data()).is_ok(), concat!(stringify!($n), ": new message is accepted"));
                    }
                }
                let mut i = 0;
                while i < $M + 2 {
                    post!(st[i] == old[i] || (n >= $M && i < $M), concat!(stringify!($n), ": nothing beyond the message is touched"));
                    i += 1;
                }
                post!(same($($p)::+::<[$U; $M + 3]>::new().data(), &canon[..]), concat!(stringify!($n), ": new array"));
                post!(matches!($($p)::+::<[$U; $M]>::try_new(), Ok(m) if same(m.data(), &canon[..])), concat!(stringify!($n), ": try_new array"));
                post!(matches!($($p)::+::<[$U; $M + 1]>::try_new(), Ok(m) if same(m.data(), &canon[..])), concat!(stringify!($n), ": try_new larger array"));
                post!($($p)::+::<[$U; $M - 1]>::try_new().is_err(), concat!(stringify!($n), ": try_new too small"));
            }
        )* }
    };
}
crate::for_each_fixed!(c03_gen);
crate::natives! {}
