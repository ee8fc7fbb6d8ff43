//! C07: message data has its exact extent; its packets partition it.
use crate::fam::same_packets;
use crate::spec::*;
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::{Data, Packets, PacketsIterator};

/// The packets of a message of `b` words in packets of `stride`, read in some way.
fn packets<S: Src>(s: &mut S, mut it: PacketsIterator, b: &[u32], stride: usize) -> bool {
    let n = b.len() / stride;
    if b.len() % stride != 0 || it.len() != n || it.size_hint() != (n, Some(n)) || it.clone().count() != n {
        return false;
    }
    let mut k = 0;
    while k < n {
        let skip = s.upto(2);
        let p = if skip == 0 { it.next() } else { it.nth(skip) };
        k += skip;
        match p {
            Some(p) => {
                if k >= n || !same(&p, &b[k * stride..(k + 1) * stride]) {
                    return false;
                }
            }
            None => {
                if k < n {
                    return false;
                }
            }
        }
        k += 1;
        let left = if k < n { n - k } else { 0 };
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return false;
        }
    }
    it.next().is_none() && it.next().is_none() && it.nth(usize::MAX).is_none()
}

#[macro_export]
macro_rules! c07_gen {
    ($( { $n:ident, $($p:ident)::+, $U:tt, $M:expr, [$(($hu:expr, $hm:expr, $hv:expr)),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (7) = |s| {
                let mut buf: [$U; $M + 2] = any_buf(s);
                force(&mut buf, &[$(($hu, $hm, $hv)),*]);
                let n = s.between($M, $M + 2);
                let r = $($p)::+::<&[$U]>::try_from(&buf[..n]);
                cov!(s, r.is_ok() && n > $M, "accepted");
                if let Ok(m) = r {
                    post!(same(Data::data(&m), &buf[..$M]), concat!(stringify!($n), ": data is the message and nothing after it"));
                    $crate::if_ump!($U, {
                        // one packet (see the known finding fbd_packets about the exception)
                        if $M == 4 || (0 $(| ($hv as u64) << 4)*) >> 32 != 0xF {
                            let mut it = Packets::packets(&m);
                            post!(it.len() == 1, concat!(stringify!($n), ": one packet"));
                            let p = it.next();
                            post!(p.is_some() && it.len() == 0, concat!(stringify!($n), ": no further packet"));
                            if let Some(p) = p {
                                post!(same(&p, &buf[..$M]), concat!(stringify!($n), ": the packet is the data"));
                            }
                        }
                    });
                }
            }
        )* }
    };
}
crate::for_each_fixed!(c07_gen);
pub mod multi {
    use super::*;
    /// A message of `p` packets followed by other words.
    macro_rules! ext {
        ($s:ident, $k:expr, $t:ty, $p:expr, $tail:expr) => {{
            let k = $k;
            const N: usize = $p * STRIDE + $tail;
            let mut b: [u32; N] = any_buf($s);
            k.make($s, &mut b, $p);
            let e = $p * k.stride;
            if e < N && b[e] >> 28 == k.ty && N - e >= k.stride {
                b[e] ^= 0x1000_0000;
            }
            let r = <$t>::try_from(&b[..]);
            cov!($s, r.is_ok(), "accepted");
            if let Ok(m) = r {
                post!(same(Data::data(&m), &b[..e]), concat!(stringify!($t), ": data is the message and nothing after it"));
                let it = Packets::packets(&m);
                post!(it.len() == $p, concat!(stringify!($t), ": packet count"));
                #[cfg(not(kani))]
                post!(packets($s, it, &b[..e], k.stride), concat!(stringify!($t), ": packets partition the data"));
            }
        }};
    }
    crate::harnesses! {
        #[cfg(any(feature = "deep", not(kani)))] s7_1 (12) = |s| { const STRIDE: usize = 2; ext!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, 1, 3) }
        s7_2 (12) = |s| { const STRIDE: usize = 2; ext!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, 2, 2) }
        s7_3 (12) = |s| { const STRIDE: usize = 2; ext!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, 3, 1) }
        #[cfg(any(feature = "deep", not(kani)))] s8_1 (14) = |s| { const STRIDE: usize = 4; ext!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, 1, 4) }
        s8_2 (14) = |s| { const STRIDE: usize = 4; ext!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, 2, 1) }
        #[cfg(any(feature = "deep", not(kani)))] lyr_1 (14) = |s| { const STRIDE: usize = 4; ext!(s, flex(2, 1), midi2::flex_data::Lyrics<&[u32]>, 1, 4) }
        lyr_2 (14) = |s| { const STRIDE: usize = 4; ext!(s, flex(2, 1), midi2::flex_data::Lyrics<&[u32]>, 2, 1) }
        #[cfg(any(feature = "deep", not(kani)))] ep_1 (14) = |s| { const STRIDE: usize = 4; ext!(s, stream(3), midi2::ump_stream::EndpointName<&[u32]>, 1, 4) }
        #[cfg(any(feature = "deep", not(kani)))] ep_2 (14) = |s| { const STRIDE: usize = 4; ext!(s, stream(3), midi2::ump_stream::EndpointName<&[u32]>, 2, 1) }
        fb_2 (14) = |s| { const STRIDE: usize = 4; ext!(s, FBNAME, midi2::ump_stream::FunctionBlockName<&[u32]>, 2, 1) }
        bytes (14) = |s| {
            let mut b: [u8; 10] = any_buf(s);
            b[0] = 0xF0;
            let n = s.upto(10);
            let r = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..n]);
            cov!(s, r.is_ok() && n > 6, "accepted");
            if let Ok(m) = r {
                let e = accept_bytes(&b[..n]);
                post!(matches!(e, Some(e) if same(Data::data(&m), &b[..e])), "byte sysex: data ends with the first end byte");
            }
        }
    }
}
macro_rules! c07_text {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        fn long_text<S: Src>(s: &mut S) {
            $( {
                long(s, flex($bank, $st), |s, b, e| {
                    let r = $($p)::+::<&[u32]>::try_from(b);
                    post!(r.is_ok(), concat!(stringify!($n), ": accepted"));
                    let m = r.unwrap();
                    post!(same(Data::data(&m), &b[..e]), concat!(stringify!($n), ": data is the message and nothing after it"));
                    post!(packets(s, Packets::packets(&m), &b[..e], 4), concat!(stringify!($n), ": packets partition the data"));
                });
            } )*
        }
    };
}
crate::for_each_text!(c07_text);
/// A message of up to 12 packets with other words after it.
fn long<S: Src>(s: &mut S, k: Kind, f: impl FnOnce(&mut S, &[u32], usize)) {
    let mut b: [u32; 52] = any_buf(s);
    let p = 1 + s.upto(11);
    k.make(s, &mut b, p);
    let e = p * k.stride;
    if b[e] >> 28 == k.ty {
        b[e] ^= 0x1000_0000;
    }
    let n = e + s.upto(4);
    f(s, &b[..n], e)
}
macro_rules! long {
    ($s:ident, $k:expr, $t:ty) => {
        long($s, $k, |s, b, e| {
            let r = <$t>::try_from(b);
            post!(r.is_ok(), concat!(stringify!($t), ": accepted"));
            let m = r.unwrap();
            post!(same(Data::data(&m), &b[..e]), concat!(stringify!($t), ": data is the message and nothing after it"));
            post!(packets(s, Packets::packets(&m), &b[..e], $k.stride), concat!(stringify!($t), ": packets partition the data"));
        })
    };
}
crate::natives! {
    big = |s| { crate::big::shapes(s) }
    big_bytes = |s| { crate::big::bytes(s) }
    long_sysex7 = |s| { long!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>) }
    long_sysex8 = |s| { long!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>) }
    long_endpoint_name = |s| { long!(s, stream(3), midi2::ump_stream::EndpointName<&[u32]>) }
    long_product_instance_id = |s| { long!(s, stream(4), midi2::ump_stream::ProductInstanceId<&[u32]>) }
    long_function_block_name = |s| { long!(s, FBNAME, midi2::ump_stream::FunctionBlockName<&[u32]>) }
    long_texts = |s| { long_text(s) }
    anything = |s| {
        let mut b = [0u32; 26];
        let n = crate::shapes::ump(s, &mut b);
        if let Ok(m) = midi2::UmpMessage::<&[u32]>::try_from(&b[..n]) {
            let d = Data::data(&m);
            post!(d.len() <= n && same(d, &b[..d.len()]), "data is a prefix of what was parsed");
            let again = midi2::UmpMessage::<&[u32]>::try_from(d);
            post!(again.is_ok(), "data alone is the same message");
            let again = again.unwrap();
            post!(same(Data::data(&again), d) && core::mem::discriminant(&again) == core::mem::discriminant(&m), "data alone is the same message");
            post!(same_packets(Packets::packets(&again), Packets::packets(&m)), "same packets");
            let mut t = 0;
            for p in Packets::packets(&m) {
                // (see the known finding fbd_packets)
                if d.len() != 1 || d[0] >> 28 != 0xF {
                    post!(t + p.len() <= d.len() && same(&p, &d[t..t + p.len()]), "packets follow one another");
                }
                t += p.len();
            }
            post!(t == d.len() || (d.len() == 1 && d[0] >> 28 == 0xF), "packets cover the data");
            cov!(s, d.len() > 8, "long");
        }
    }
    anything_bytes = |s| {
        let mut b = [0u8; 26];
        let n = crate::shapes::bytes(s, &mut b);
        if let Ok(m) = midi2::BytesMessage::<&[u8]>::try_from(&b[..n]) {
            let d = Data::data(&m);
            post!(d.len() <= n && same(d, &b[..d.len()]), "data is a prefix of what was parsed");
            let again = midi2::BytesMessage::<&[u8]>::try_from(d);
            post!(matches!(&again, Ok(a) if same(Data::data(a), d)), "data alone is the same message");
            cov!(s, d.len() > 8, "long");
        }
    }
}
