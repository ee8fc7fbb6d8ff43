//! C05: untrusted input never panics.  There is nothing to assert beyond the absence of panics,
//! arithmetic overflow and out-of-bounds accesses, which are obligations of every call, and
//! termination, which is the unwinding obligation of every loop.
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::{Data, Packets, PacketsIterator};

/// Every packet, read in some way.
pub fn packets<S: Src>(s: &mut S, mut it: PacketsIterator) {
    let mut n = it.len();
    loop {
        let k = s.upto(3);
        let p = if k < 2 { it.next() } else { it.nth(k - 1) };
        if p.is_none() {
            break;
        }
        let m = it.len();
        post!(m < n, "packet iteration terminates");
        n = m;
    }
}
/// Every payload byte, read in some way.
pub fn payload<S: Src, T>(s: &mut S, it: impl ExactSizeIterator<Item = T>) {
    let mut it = it;
    let mut n = it.len();
    loop {
        let k = s.upto(5);
        let p = if k < 4 { it.next() } else { it.nth(s.upto(255)) };
        let _ = it.size_hint();
        if p.is_none() {
            break;
        }
        let m = it.len();
        post!(m < n, "payload iteration terminates");
        n = m;
    }
    let _ = it.nth(usize::MAX);
}
/// The same, one element after the other (for the verifier).
fn run<T>(it: impl Iterator<Item = T>, max: usize) {
    let mut it = it;
    let mut k = 0;
    while it.next().is_some() {
        k += 1;
        post!(k <= max, "iteration terminates");
    }
}

#[macro_export]
macro_rules! c05_gen {
    ($( { $n:ident, $($p:ident)::+, $U:tt, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (7) = |s| {
                let buf: [$U; $M + 2] = any_buf(s);
                let n = s.upto($M + 2);
                let r = $($p)::+::<&[$U]>::try_from(&buf[..n]);
                cov!(s, r.is_ok(), "accepted");
                cov!(s, r.is_err(), "rejected");
                if let Ok(m) = r {
                    let d = Data::data(&m);
                    post!(d.len() <= n, "data lies within the slice");
                    $( let _ = m.$g(); )*
                }
            }
        )* }
        #[cfg(not(kani))]
        fn fixed_u<S: Src>(s: &mut S, b: &[u32]) {
            $( $crate::if_ump!($U, {
                if let Ok(m) = $($p)::+::<&[u32]>::try_from(b) {
                    let _ = Data::data(&m);
                    $( let _ = m.$g(); )*
                    packets(s, Packets::packets(&m));
                }
            }); )*
        }
    };
}
crate::for_each_fixed!(c05_gen);

/// The packets of one message of every packet type (every message: C07, and natively).
pub mod pk {
    use super::*;
    macro_rules! pk {
        ($( $n:ident $t:ty, $M:expr; )*) => { crate::harnesses! { $(
            $n (7) = |s| {
                let buf: [u32; $M + 1] = any_buf(s);
                if let Ok(m) = <$t>::try_from(&buf[..]) {
                    cov!(s, true, "accepted");
                    let mut it = Packets::packets(&m);
                    let _ = it.next();
                    let _ = it.next();
                }
            }
        )* } };
    }
    pk! {
        utility midi2::utility::DeltaClockstamp<&[u32]>, 1;
        system_common midi2::system_common::SongSelect<&[u32]>, 1;
        channel_voice1 midi2::channel_voice1::NoteOn<&[u32]>, 1;
        channel_voice2 midi2::channel_voice2::NoteOn<&[u32]>, 2;
        flex_data midi2::flex_data::SetTempo<&[u32]>, 4;
        ump_stream midi2::ump_stream::StreamConfigurationRequest<&[u32]>, 4;
    }
}
pub mod multi {
    use super::*;
    macro_rules! words {
        ($s:ident, $t:ty, $n:expr, |$m:ident| $e:expr) => {{
            let b: [u32; $n] = any_buf($s);
            if let Ok($m) = <$t>::try_from(&b[..]) {
                cov!($s, true, "accepted");
                post!(Data::data(&$m).len() <= $n, "data lies within the slice");
                $e;
            }
        }};
    }
    macro_rules! sysex {
        ($( $name:ident $t:ty, $n:expr; )*) => { crate::harnesses! { $(
#[cfg(any(feature = "deep", not(kani)))] $name (40) = |s| { words!(s, $t, $n, |m| {
                let _ = (m.group(), m.payload_size());
            }) }
        )*
            sysex7_bytes (14) = |s| {
                let b: [u8; 8] = any_buf(s);
                let n = s.upto(8);
                if let Ok(m) = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..n]) {
                    cov!(s, true, "accepted");
                    post!(Data::data(&m).len() <= n, "data lies within the slice");
                    run(m.payload(), 8);
                }
            }
        } };
    }
    sysex! {
        sysex7_2 midi2::sysex7::Sysex7<&[u32]>, 2;
    }
}
pub mod texts {
    use super::*;
    use crate::text::*;
    macro_rules! texts {
        ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
            crate::harnesses! { $(
                $n (34) = |s| {
                    let b: [u32; 4] = any_buf(s);
                    if let Ok(m) = $($p)::+::<&[u32]>::try_from(&b[..]) {
                        cov!(s, true, "accepted");
                        let _ = (Data::data(&m), m.group(), m.optional_channel());
                    }
                }
            )* }
            #[cfg(not(kani))]
            pub fn all<S: Src>(s: &mut S, b: &[u32]) {
                $( if let Ok(m) = $($p)::+::<&[u32]>::try_from(b) {
                    let _ = (Data::data(&m), m.group(), m.optional_channel());
                    let _ = m.text_bytes().count();
                    #[cfg(feature = "std")]
                    let _ = m.text();
                    packets(s, Packets::packets(&m));
                } )*
            }
        };
    }
    crate::for_each_text!(texts);
}
pub mod names {
    use super::*;
    use crate::text::*;
    macro_rules! names {
        ($( $n:ident $t:ident; )*) => {
            crate::harnesses! { $(
                $n (34) = |s| {
                    let b: [u32; 4] = any_buf(s);
                    if let Ok(m) = midi2::ump_stream::$t::<&[u32]>::try_from(&b[..]) {
                        cov!(s, true, "accepted");
                        let _ = Data::data(&m);
                        let _ = m.name_bytes().next();
                    }
                }
            )* }
            #[cfg(not(kani))]
            pub fn all<S: Src>(s: &mut S, b: &[u32]) {
                $( if let Ok(m) = midi2::ump_stream::$t::<&[u32]>::try_from(b) {
                    let _ = Data::data(&m);
                    let _ = m.name_bytes().count();
                    #[cfg(feature = "std")]
                    let _ = m.name();
                    packets(s, Packets::packets(&m));
                } )*
            }
        };
    }
    names! { endpoint_name EndpointName; product_instance_id ProductInstanceId; function_block_name FunctionBlockName; }
}
macro_rules! aggregate {
    ($s:ident, $b:ident, $md:ident, $U:tt) => {
        if let Ok(m) = <$crate::fam!($md, &[$U])>::try_from($b) {
            let _ = Data::data(&m);
            $crate::if_group!($md, $U, { let _ = m.group(); });
            $crate::if_channel!($md, $U, { let _ = m.channel(); });
            $crate::if_ump!($U, { packets($s, Packets::packets(&m)); });
        }
    };
}
crate::natives! {
    big_payload = |s| { crate::big::c12(s) }
    big_text = |s| { crate::big::c14(s) }
    words = |s| {
        let mut st = [0u32; 26];
        let n = crate::shapes::ump(s, &mut st);
        let b = &st[..n];
        fixed_u(s, b);
        texts::all(s, b);
        names::all(s, b);
        if let Ok(m) = midi2::sysex7::Sysex7::<&[u32]>::try_from(b) {
            let _ = (Data::data(&m), m.group(), m.payload_size());
            payload(s, m.payload());
            packets(s, Packets::packets(&m));
            cov!(s, n > 8, "long sysex7");
        }
        if let Ok(m) = midi2::sysex8::Sysex8::<&[u32]>::try_from(b) {
            let _ = (Data::data(&m), m.group(), m.stream_id(), m.payload_size());
            payload(s, m.payload());
            packets(s, Packets::packets(&m));
            cov!(s, n > 8, "long sysex8");
        }
        aggregate!(s, b, channel_voice1, u32);
        aggregate!(s, b, channel_voice2, u32);
        aggregate!(s, b, system_common, u32);
        aggregate!(s, b, utility, u32);
        aggregate!(s, b, flex_data, u32);
        aggregate!(s, b, ump_stream, u32);
        if let Ok(m) = midi2::UmpMessage::<&[u32]>::try_from(b) {
            let _ = Data::data(&m);
            packets(s, Packets::packets(&m));
        }
    }
    bytes = |s| {
        let mut st = [0u8; 26];
        let n = crate::shapes::bytes(s, &mut st);
        let b = &st[..n];
        aggregate!(s, b, channel_voice1, u8);
        aggregate!(s, b, system_common, u8);
        if let Ok(m) = midi2::BytesMessage::<&[u8]>::try_from(b) {
            let _ = Data::data(&m);
        }
        if let Ok(m) = midi2::sysex7::Sysex7::<&[u8]>::try_from(b) {
            let _ = (Data::data(&m), m.payload_size());
            payload(s, m.payload());
        }
    }
}
