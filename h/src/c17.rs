//! C17: multi-packet messages are accepted exactly when the packet sequence is well formed.
use crate::spec::*;
use crate::val::any_buf;
use crate::{cov, post};
use midi2::prelude::*;

macro_rules! acc {
    ($s:ident, $k:expr, $t:ty, $buf:ident, $n:ident) => {{
        let want = $k.accept(&$buf[..$n]).is_some();
        let ok = <$t>::try_from(&$buf[..$n]).is_ok();
        cov!($s, ok, "accepted");
        cov!($s, !ok && $n >= $k.stride, "rejected");
        post!(ok == want, concat!(stringify!($t), ": accepted iff well formed"));
    }};
}
/// word0 of every packet arbitrary among those with the right type and fixed bits half the time
fn shape<S: crate::src::Src, const N: usize>(s: &mut S, k: Kind) -> [u32; N] {
    let mut b: [u32; N] = any_buf(s);
    let f = s.bool();
    let g = s.bool();
    let mut i = 0;
    while i < N {
        if f {
            b[i] = b[i] & !0xF000_0000 & !k.head_mask | k.ty << 28 | k.head;
        }
        if g {
            b[i] = b[i] & !k.same | b[0] & k.same;
        }
        i += k.stride;
    }
    b
}

fn s7<S: crate::src::Src, const N: usize>(s: &mut S) {
    let b: [u32; N] = shape(s, SYSEX7);
    let n = s.upto(N);
    acc!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, b, n);
}
fn s8<S: crate::src::Src, const N: usize>(s: &mut S) {
    let b: [u32; N] = shape(s, SYSEX8);
    let n = s.upto(N);
    acc!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, b, n);
}
fn by<S: crate::src::Src, const N: usize>(s: &mut S) {
    let mut b: [u8; N] = any_buf(s);
    b[0] = if s.bool() { 0xF0 } else { b[0] };
    let n = s.upto(N);
    let ok = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..n]).is_ok();
    cov!(s, ok, "accepted");
    cov!(s, !ok && n >= 2, "rejected");
    post!(ok == accept_bytes(&b[..n]).is_some(), "Sysex7 bytes: accepted iff framed");
}
crate::harnesses! {
    s7_p3 (12) = |s| { s7::<S, 7>(s) }
    s8_p2 (14) = |s| { s8::<S, 9>(s) }
    bytes (12) = |s| { by::<S, 9>(s) }
    lyr_p2 (14) = |s| {
        let k = flex(2, 1);
        let b: [u32; 9] = shape(s, k);
        let n = s.upto(9);
        acc!(s, k, midi2::flex_data::Lyrics<&[u32]>, b, n);
    }
    ep_p2 (14) = |s| {
        let k = stream(3);
        let b: [u32; 9] = shape(s, k);
        let n = s.upto(9);
        acc!(s, k, midi2::ump_stream::EndpointName<&[u32]>, b, n);
    }
    fb_p2 (14) = |s| {
        let k = FBNAME;
        let b: [u32; 9] = shape(s, k);
        let n = s.upto(9);
        acc!(s, k, midi2::ump_stream::FunctionBlockName<&[u32]>, b, n);
    }
}
macro_rules! c17_text {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        fn texts(b: &[u32]) {
            $( post!($($p)::+::<&[u32]>::try_from(b).is_ok() == flex($bank, $st).accept(b).is_some(),
                concat!(stringify!($n), ": accepted iff well formed")); )*
        }
    };
}
crate::for_each_text!(c17_text);
crate::natives! {
    big = |s| { crate::big::shapes(s) }
    big_bytes = |s| { crate::big::bytes(s) }
    long = |s| {
        let mut b = [0u32; 34];
        let ty = [3, 5, 0xD, 0xF][s.upto(3)];
        let n = crate::shapes::of(s, &mut b, ty);
        let b = &b[..n];
        macro_rules! acc {
            ($k:expr, $t:ty) => { post!(<$t>::try_from(b).is_ok() == $k.accept(b).is_some(), concat!(stringify!($t), ": accepted iff well formed")) };
        }
        acc!(SYSEX7, midi2::sysex7::Sysex7<&[u32]>);
        acc!(SYSEX8, midi2::sysex8::Sysex8<&[u32]>);
        acc!(stream(3), midi2::ump_stream::EndpointName<&[u32]>);
        acc!(stream(4), midi2::ump_stream::ProductInstanceId<&[u32]>);
        acc!(FBNAME, midi2::ump_stream::FunctionBlockName<&[u32]>);
        texts(b);
        cov!(s, n > 16, "long");
    }
    long_bytes = |s| {
        let mut b = [0u8; 40];
        let n = crate::shapes::bytes(s, &mut b);
        post!(midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..n]).is_ok() == accept_bytes(&b[..n]).is_some(), "accepted iff framed");
        cov!(s, n > 16, "long");
    }
}
