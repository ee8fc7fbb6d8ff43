//! C02: setters store exactly their field and change nothing else.
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

#[macro_export]
macro_rules! c02_gen {
    ($( { $n:ident, $($p:ident)::+, $U:ty, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], $dc:tt,
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (9) = |s| {
                const NAMES: &[&str] = &[$(stringify!($g)),*];
                const NF: usize = NAMES.len().saturating_sub(1);
                fn accepted(d: &[$U]) -> bool {
                    $($p)::+::<&[$U]>::try_from(d).is_ok()
                }
                let mut buf: [$U; $M + 1] = any_buf(s);
                force(&mut buf, &[$($h),*]);
                pre!(s, header(&buf, &[$($h),*], &[$($ne),*]));
                $( pre!(s, <$t as Val>::from_code(extract(&buf, &[$($seg),*])).is_some()); )*
                let r = $($p)::+::<&[$U]>::try_from(&buf[..]);
                cov!(s, r.is_ok(), "accepted");
                if let Ok(b) = r {
                    // The message over storage of its own, one unit larger than it needs.
                    let r: Result<$($p)::+<[$U; $M + 1]>, _> = b.try_rebuffer_into();
                    pre!(s, r.is_ok());
                    let mut m = r.ok().unwrap();
                    // One field, chosen arbitrarily, is set to an arbitrary legal value.
                    let k = s.upto(NF);
                    let mut j = 0;
                    $( {
                        if k == j {
                            let v = any_val::<$t, S>(s, width(&[$($seg),*]));
                            pre!(s, v.is_some());
                            let v = v.unwrap();
                            m.$set(v);
                            post!(Val::code(m.$g()) == v.code() || m.$g() == v, concat!(stringify!($n), ".", stringify!($set), " then get"));
                            post!(framed(&buf[..$M], m.data(), &[$($seg),*], v.code(), v.writes(), &$dc), concat!(stringify!($n), ".", stringify!($set), " frame"));
                        }
                        j += 1;
                    } )*
                    let _ = j;
                    post!(accepted(m.data()), concat!(stringify!($n), ": still valid after a setter"));
                }
                // Storage after the message is not part of it.
                let mut st: [$U; $M + 1] = any_buf(s);
                let tail = st[$M];
                if let Ok(mut m) = $($p)::+::<&mut [$U]>::try_new_with_buffer(&mut st[..]) {
                    $( {
                        let v = any_val::<$t, S>(s, width(&[$($seg),*]));
                        pre!(s, v.is_some());
                        m.$set(v.unwrap());
                    } )*
                }
                post!(st[$M] == tail, concat!(stringify!($n), ": setters touch nothing after the message"));
            }
        )* }
    };
}
crate::for_each_fixed!(c02_gen);
crate::natives! {}
