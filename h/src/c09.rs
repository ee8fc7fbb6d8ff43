//! C09: translation between MIDI 1.0 bytes and UMP is exact and reversible.
use crate::edit::Grow;
use crate::spec::*;
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

/// The UMP word of a byte message of `l` bytes, group 0.
fn word(ty: u32, l: usize, b: &[u8]) -> u32 {
    let d = |i: usize| if i < l { (b[i] & 0x7F) as u32 } else { 0 };
    ty << 28 | (b[0] as u32) << 16 | d(1) << 8 | d(2)
}
/// Byte `i` of the byte message of `l` bytes encoded by a UMP word.
fn byte(w: u32, i: usize) -> u8 {
    let v = (w >> (16 - 8 * i)) as u8;
    if i == 0 { v } else { v & 0x7F }
}
fn bytes_of(d: &[u8], l: usize, w: u32) -> bool {
    if d.len() != l {
        return false;
    }
    let mut i = 0;
    while i < l {
        if d[i] != byte(w, i) {
            return false;
        }
        i += 1;
    }
    true
}

/// One message, or an aggregate, translated by every route.
macro_rules! both {
    ($s:ident, $t:ident :: $u:ident, $ty:expr, $l:expr, $l1:expr, $status:expr, $mask:expr) => {{
        type T<X> = midi2::$t::$u<X>;
        // bytes to UMP
        let mut b: [u8; 4] = any_buf($s);
        b[0] = b[0] & !$mask | $status;
        let n = $s.between($l, 4);
        if let Ok(m) = T::<&[u8]>::try_from(&b[..n]) {
            let w = word($ty, $l, &b);
            let g: T<Grow<u32, 2>> = m.clone().into_ump();
            post!(same(g.data(), &[w]), concat!(stringify!($u), ": bytes to UMP, growable storage"));
            let a: T<[u32; 2]> = T::<[u32; 2]>::try_from_bytes(m.clone()).ok().unwrap();
            post!(same(a.data(), &[w]), concat!(stringify!($u), ": bytes to UMP, array"));
            let e: Result<T<[u32; 1]>, _> = m.clone().try_into_ump();
            post!(matches!(&e, Ok(e) if same(e.data(), &[w])), concat!(stringify!($u), ": bytes to UMP, exact array"));
            let o: Result<T<[u32; 0]>, _> = m.clone().try_into_ump();
            post!(o.is_err(), concat!(stringify!($u), ": bytes to UMP, no room"));
            post!(T::<&[u32]>::try_from(g.data()).is_ok(), concat!(stringify!($u), ": bytes to UMP, valid"));
            // and back
            let r: T<Grow<u8, 4>> = g.into_bytes();
            post!(bytes_of(r.data(), $l, w), concat!(stringify!($u), ": bytes to UMP to bytes"));
            post!(r.data()[0] == b[0], concat!(stringify!($u), ": status survives the round trip"));
            cov!($s, true, "from bytes");
        }
        // UMP to bytes
        let mut u: [u32; 2] = any_buf($s);
        u[0] = u[0] & !(0xF000_0000 | ($mask as u32) << 16) | $ty << 28 | ($status as u32) << 16;
        let n = $s.between(1, 2);
        if let Ok(m) = T::<&[u32]>::try_from(&u[..n]) {
            let g: T<Grow<u8, 4>> = m.clone().into_bytes();
            post!(bytes_of(g.data(), $l, u[0]), concat!(stringify!($u), ": UMP to bytes, growable storage"));
            let a: Result<T<[u8; 4]>, _> = T::<[u8; 4]>::try_from_ump(m.clone());
            post!(matches!(&a, Ok(a) if bytes_of(a.data(), $l, u[0])), concat!(stringify!($u), ": UMP to bytes, array"));
            let e: Result<T<[u8; $l]>, _> = m.clone().try_into_bytes();
            post!(matches!(&e, Ok(e) if bytes_of(e.data(), $l, u[0])), concat!(stringify!($u), ": UMP to bytes, exact array"));
            let o: Result<T<[u8; $l1]>, _> = m.clone().try_into_bytes();
            post!(o.is_err(), concat!(stringify!($u), ": UMP to bytes, no room"));
            post!(T::<&[u8]>::try_from(g.data()).is_ok(), concat!(stringify!($u), ": UMP to bytes, valid"));
            // and back: only the group is gone
            let r: T<Grow<u32, 2>> = g.into_ump();
            post!(same(r.data(), &[word($ty, $l, &[byte(u[0], 0), byte(u[0], 1), byte(u[0], 2)])]), concat!(stringify!($u), ": UMP to bytes to UMP"));
            cov!($s, true, "from UMP");
        }
    }};
}
/// Through the aggregate: the same member with the same data.
macro_rules! member {
    ($s:ident, $md:ident, $v:ident, $u:ident, $ty:expr, $l:expr, $l1:expr, $status:expr, $mask:expr) => {{
        type T<X> = midi2::$md::$v<X>;
        let mut b: [u8; 3] = any_buf($s);
        b[0] = b[0] & !$mask | $status;
        if let Ok(x) = midi2::$md::$u::<&[u8]>::try_from(&b[..$l]) {
            let m: T<&[u8]> = x.into();
            let w = word($ty, $l, &b);
            let g: T<Grow<u32, 2>> = m.clone().into_ump();
            post!(matches!(&g, T::$u(_)) && same(g.data(), &[w]), concat!(stringify!($v), "::", stringify!($u), ": bytes to UMP"));
            let e: Result<T<[u32; 1]>, _> = m.clone().try_into_ump();
            post!(matches!(&e, Ok(e @ T::$u(_)) if same(e.data(), &[w])), concat!(stringify!($v), "::", stringify!($u), ": bytes to UMP, array"));
            let o: Result<T<[u32; 0]>, _> = m.try_into_ump();
            post!(o.is_err(), concat!(stringify!($v), "::", stringify!($u), ": bytes to UMP, no room"));
            cov!($s, true, "from bytes");
        }
        let mut u: [u32; 1] = any_buf($s);
        u[0] = u[0] & !(0xF000_0000 | ($mask as u32) << 16) | $ty << 28 | ($status as u32) << 16;
        if let Ok(x) = midi2::$md::$u::<&[u32]>::try_from(&u[..]) {
            let m: T<&[u32]> = x.into();
            let g: T<Grow<u8, 4>> = m.clone().into_bytes();
            post!(matches!(&g, T::$u(_)) && bytes_of(g.data(), $l, u[0]), concat!(stringify!($v), "::", stringify!($u), ": UMP to bytes"));
            let e: Result<T<[u8; $l]>, _> = m.clone().try_into_bytes();
            post!(matches!(&e, Ok(e @ T::$u(_)) if bytes_of(e.data(), $l, u[0])), concat!(stringify!($v), "::", stringify!($u), ": UMP to bytes, array"));
            let o: Result<T<[u8; $l1]>, _> = m.try_into_bytes();
            post!(o.is_err(), concat!(stringify!($v), "::", stringify!($u), ": UMP to bytes, no room"));
        }
    }};
}
macro_rules! pairs {
    ($( $n:ident $md:ident $v:ident $u:ident $ty:literal $l:literal $l1:literal $status:literal $mask:literal; )*) => {
        crate::harnesses! { $(
            $n (7) = |s| { both!(s, $md::$u, $ty, $l, $l1, $status, $mask) }
        )* }
        pub mod agg {
            use super::*;
            crate::harnesses! { $(
                $n (7) = |s| { member!(s, $md, $v, $u, $ty, $l, $l1, $status, $mask) }
            )* }
        }
    };
}
pairs! {
    note_off channel_voice1 ChannelVoice1 NoteOff 2 3 2 0x80 0xF0;
    note_on channel_voice1 ChannelVoice1 NoteOn 2 3 2 0x90 0xF0;
    key_pressure channel_voice1 ChannelVoice1 KeyPressure 2 3 2 0xA0 0xF0;
    control_change channel_voice1 ChannelVoice1 ControlChange 2 3 2 0xB0 0xF0;
    program_change channel_voice1 ChannelVoice1 ProgramChange 2 2 1 0xC0 0xF0;
    channel_pressure channel_voice1 ChannelVoice1 ChannelPressure 2 2 1 0xD0 0xF0;
    pitch_bend channel_voice1 ChannelVoice1 PitchBend 2 3 2 0xE0 0xF0;
    time_code system_common SystemCommon TimeCode 1 2 1 0xF1 0xFF;
    song_position_pointer system_common SystemCommon SongPositionPointer 1 3 2 0xF2 0xFF;
    song_select system_common SystemCommon SongSelect 1 2 1 0xF3 0xFF;
    tune_request system_common SystemCommon TuneRequest 1 1 0 0xF6 0xFF;
    timing_clock system_common SystemCommon TimingClock 1 1 0 0xF8 0xFF;
    start system_common SystemCommon Start 1 1 0 0xFA 0xFF;
    continue_ system_common SystemCommon Continue 1 1 0 0xFB 0xFF;
    stop system_common SystemCommon Stop 1 1 0 0xFC 0xFF;
    active_sensing system_common SystemCommon ActiveSensing 1 1 0 0xFE 0xFF;
    reset system_common SystemCommon Reset 1 1 0 0xFF 0xFF;
}
/// System exclusive, payload of `n` bytes.
pub fn sysex<S: Src, const N: usize, const B: usize, const W: usize>(s: &mut S, n: usize) {
    use midi2::sysex7::Sysex7;
    let mut b: [u8; B] = any_buf(s);
    b[0] = 0xF0;
    let mut i = 0;
    while i < n {
        b[1 + i] &= 0x7F;
        i += 1;
    }
    b[n + 1] = 0xF7;
    let m = Sysex7::<&[u8]>::try_from(&b[..n + 2]).ok().unwrap();
    let g: Sysex7<Grow<u32, W>> = m.clone().into_ump();
    post!(SYSEX7.compact(g.data(), &b[1..n + 1], (0x0F00_0000, 0)), "sysex bytes to UMP: group 0, compact, same payload, zero padding");
    let r: Sysex7<Grow<u8, B>> = g.into_bytes();
    post!(same(r.data(), &b[..n + 2]), "sysex bytes to UMP to bytes");
}
pub mod more {
    use super::*;
    crate::harnesses! {
        sysex_0 (12) = |s| { sysex::<S, 0, 2, 4>(s, 0) }
    }
}
/// UMP system exclusive of any shape into bytes and back; every target size.
pub fn sysex_ump<S: Src>(s: &mut S) {
    use midi2::sysex7::Sysex7;
    let mut u: [u32; 16] = any_buf(s);
    let p = 1 + s.upto(5);
    SYSEX7.make(s, &mut u, p);
    let mut e = 2 * p;
    if u[e] >> 28 == 3 {
        u[e] ^= 0x1000_0000;
    }
    e += s.upto(2);
    let m = Sysex7::<&[u32]>::try_from(&u[..e]).ok().unwrap();
    let mut pl = [0u8; 64];
    let n = SYSEX7.payload(&u, p, &mut pl);
    let g: Sysex7<Grow<u8, 64>> = m.clone().into_bytes();
    post!(crate::edit::framed_bytes(g.data(), &pl[..n]), "sysex UMP to bytes: same payload");
    let w: Sysex7<Grow<u32, 64>> = g.into_ump();
    post!(SYSEX7.compact(w.data(), &pl[..n], (0x0F00_0000, 0)), "sysex UMP to bytes to UMP: same payload, group 0");
    macro_rules! room {
        ($($z:literal)*) => { $(
            let x: Result<Sysex7<[u8; $z]>, _> = m.clone().try_into_bytes();
            post!(x.is_ok() == (n + 2 <= $z), "sysex UMP to bytes: overflow exactly when too small");
            if let Ok(x) = x { post!(crate::edit::framed_bytes(x.data(), &pl[..n]), "sysex UMP to bytes: same payload in an array"); }
        )* };
    }
    room!(0 1 2 3 4 5 8 9 13 14 20 26 32 38 60);
    cov!(s, p > 2, "several packets");
}
pub fn sysex_bytes<S: Src>(s: &mut S) {
    use midi2::sysex7::Sysex7;
    let n = s.upto(30);
    let mut b: [u8; 40] = any_buf(s);
    b[0] = 0xF0;
    for i in 0..n {
        b[1 + i] &= 0x7F;
    }
    b[n + 1] = 0xF7;
    let e = n + 2 + s.upto(4);
    let m = Sysex7::<&[u8]>::try_from(&b[..e]).ok().unwrap();
    let g: Sysex7<Grow<u32, 64>> = m.clone().into_ump();
    post!(SYSEX7.compact(g.data(), &b[1..n + 1], (0x0F00_0000, 0)), "sysex bytes to UMP: group 0, compact, same payload, zero padding");
    let r: Sysex7<Grow<u8, 64>> = g.into_bytes();
    post!(same(r.data(), &b[..n + 2]), "sysex bytes to UMP to bytes");
    macro_rules! room {
        ($($z:literal)*) => { $(
            let x: Result<Sysex7<[u32; $z]>, _> = m.clone().try_into_ump();
            post!(x.is_ok() == (SYSEX7.words(n) <= $z), "sysex bytes to UMP: overflow exactly when too small");
            if let Ok(x) = x { post!(SYSEX7.compact(x.data(), &b[1..n + 1], (0x0F00_0000, 0)), "sysex bytes to UMP: same payload in an array"); }
        )* };
    }
    room!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    cov!(s, n > 12, "several packets");
}
crate::natives! {
    big = |s| { crate::big::c09(s) }
    from_ump = |s| { sysex_ump(s) }
    from_bytes = |s| { sysex_bytes(s) }
}
