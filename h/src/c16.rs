//! C16: setting group or channel changes only that field, in every packet.
use crate::edit::*;
use crate::fam::*;
use crate::spec::*;
use crate::src::Src;
use crate::text::*;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::{Channeled, Data, Grouped, Packets};

/// `new` is `old` with the bits `mask` of word 0 of every packet replaced by `v`.
fn every(old: &[u32], new: &[u32], stride: usize, mask: u32, v: u32) -> bool {
    if old.len() != new.len() {
        return false;
    }
    let mut i = 0;
    while i < old.len() {
        let want = if i % stride == 0 { old[i] & !mask | v } else { old[i] };
        if new[i] != want {
            return false;
        }
        i += 1;
    }
    true
}
const GROUP: u32 = 0x0F00_0000;
const CHAN: u32 = 0x003F_0000;
fn address(ch: Option<u4>) -> u32 {
    match ch {
        Some(c) => (u8::from(c) as u32) << 16,
        None => 0x10_0000,
    }
}

#[macro_export]
macro_rules! c16_field {
    // one field of one fixed-size message, directly and through the aggregate
    (@one $s:ident, $md:ident, $t:ident, $U:tt, $M:expr, $buf:ident, $st:ident, $get:ident, $set:ident, $tr:ident, $seg:expr) => {{
        let r = midi2::$md::$t::<&[$U]>::try_from(&$buf[..]);
        if let Ok(b) = r {
            cov!($s, true, "accepted");
            let r: Result<midi2::$md::$t<[$U; $M + 1]>, _> = b.try_rebuffer_into();
            pre!($s, r.is_ok());
            let mut m = r.ok().unwrap();
            let v = $s.bits(4) as u8;
            m.$set(u4::new(v));
            post!(m.$get() == u4::new(v), concat!(stringify!($md), "::", stringify!($t), ": ", stringify!($set), " then get"));
            post!(framed(&$buf[..$M], m.data(), $seg, v as u64, u64::MAX, &[]), concat!(stringify!($md), "::", stringify!($t), ": ", stringify!($set), " changes its bits only"));
            type A = $crate::fam!($md, [$U; $M + 1]);
            let mut a: A = m.into();
            let v = $s.bits(4) as u8;
            $tr::$set(&mut a, u4::new(v));
            post!($tr::$get(&a) == u4::new(v), concat!(stringify!($md), "::", stringify!($t), ": ", stringify!($set), " then get through the aggregate"));
            let same_member = match &a {
                A::$t(m) => framed(&$buf[..$M], m.data(), $seg, v as u64, u64::MAX, &[]),
                _ => false,
            };
            post!(same_member, concat!(stringify!($md), "::", stringify!($t), ": ", stringify!($set), " through the aggregate changes its bits only"));
        }
        // what is stored after the message
        let tail = $st[$M];
        let mut old = [0 as $U; $M];
        let mut new = [0 as $U; $M];
        let v = $s.bits(4) as u8;
        if let Ok(m) = midi2::$md::$t::<&mut [$U]>::try_new_with_buffer(&mut $st[..]) {
            let mut i = 0;
            while i < $M { old[i] = m.data()[i]; i += 1; }
            let mut a: $crate::fam!($md, &mut [$U]) = m.into();
            $tr::$set(&mut a, u4::new(v));
        }
        let mut i = 0;
        while i < $M { new[i] = $st[i]; i += 1; }
        post!(framed(&old, &new, $seg, v as u64, u64::MAX, &[]), concat!(stringify!($md), "::", stringify!($t), ": new message: ", stringify!($set), " through the aggregate changes its bits only"));
        post!($st[$M] == tail, concat!(stringify!($md), "::", stringify!($t), ": ", stringify!($set), " through the aggregate touches nothing after the message"));
    }};
    (group, $s:ident, $md:ident, $t:ident, $U:tt, $M:expr, $buf:ident, $st:ident, $seg:expr) => {
        $crate::c16_field!(@one $s, $md, $t, $U, $M, $buf, $st, group, set_group, Grouped, $seg)
    };
    (channel, $s:ident, $md:ident, $t:ident, $U:tt, $M:expr, $buf:ident, $st:ident, $seg:expr) => {
        $crate::c16_field!(@one $s, $md, $t, $U, $M, $buf, $st, channel, set_channel, Channeled, $seg)
    };
    (optional_channel, $s:ident, $md:ident, $t:ident, $U:tt, $M:expr, $buf:ident, $st:ident, $seg:expr) => {{
        if let Ok(b) = midi2::$md::$t::<&[$U]>::try_from(&$buf[..]) {
            let r: Result<midi2::$md::$t<[$U; $M + 1]>, _> = b.try_rebuffer_into();
            pre!($s, r.is_ok());
            let mut m = r.ok().unwrap();
            let ch = $crate::c16::channel($s);
            m.set_optional_channel(ch);
            post!(m.optional_channel() == ch, concat!(stringify!($t), ": set_optional_channel then get"));
            post!(framed(&$buf[..$M], m.data(), $seg, ch.code(), u64::MAX, &[]), concat!(stringify!($t), ": set_optional_channel changes its bits only"));
        }
    }};
    ($other:ident, $($x:tt)*) => {};
}
pub fn channel<S: Src>(s: &mut S) -> Option<u4> {
    if s.bool() {
        Some(u4::new(s.bits(4) as u8))
    } else {
        None
    }
}
#[macro_export]
macro_rules! c16_gen {
    ($( { $n:ident, midi2 :: $md:ident :: $t:ident, $U:tt, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $ty:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (9) = |s| {
                let mut buf: [$U; $M + 1] = any_buf(s);
                force(&mut buf, &[$($h),*]);
                pre!(s, header(&buf, &[$($h),*], &[$($ne),*]));
                let mut st: [$U; $M + 1] = any_buf(s);
                $( $crate::c16_field!($g, s, $md, $t, $U, $M, buf, st, &[$($seg),*]); )*
                let _ = (&buf, &mut st);
                cov!(s, true, "reached");
            }
        )* }
    };
}
crate::for_each_fixed!(c16_gen);

/// A message of `p` packets (followed by others, natively): its group and that of its aggregate.
macro_rules! grouped {
    ($s:ident, $k:expr, $t:ident, $G:ty, $b:ident, $p:expr, $($path:ident)::+) => {{
        let k = $k;
        k.make($s, &mut $b, $p);
        let e = $p * k.stride;
        let r = $($path)::+::<&[u32]>::try_from(&$b[..e]);
        cov!($s, r.is_ok(), "accepted");
        if let Ok(r) = r {
            let mut m: $($path)::+<$G> = r.rebuffer_into();
            let g = $s.bits(4) as u32;
            m.set_group(u4::new(g as u8));
            post!(m.group() == u4::new(g as u8), concat!(stringify!($t), ": set_group then get"));
            post!(every(&$b[..e], m.data(), k.stride, GROUP, g << 24), concat!(stringify!($t), ": set_group changes the group of every packet and nothing else"));
        }
    }};
}
macro_rules! c16_text {
    ($( { $n:ident, midi2 :: $md:ident :: $t:ident, $bank:expr, $st:expr } )*) => {
        pub mod texts {
            use super::*;
            crate::harnesses! { $(
                $n (18) = |s| {
                    const K: Kind = flex($bank, $st);
                    {
                        let mut b: [u32; 4] = any_buf(s);
                        K.make(s, &mut b, 1);
                        let r = midi2::$md::$t::<&[u32]>::try_from(&b[..]);
                        cov!(s, r.is_ok(), "accepted");
                        if let Ok(r) = r {
                            let mut m: midi2::$md::$t<Grow<u32, 4>> = r.rebuffer_into();
                            let g = s.bits(4) as u32;
                            m.set_group(u4::new(g as u8));
                            post!(m.group() == u4::new(g as u8), concat!(stringify!($t), ": set_group then get"));
                            let ch = channel(s);
                            m.set_optional_channel(ch);
                            post!(m.optional_channel() == ch, concat!(stringify!($t), ": set_optional_channel then get"));
                            post!(every(&b[..], m.data(), 4, GROUP | CHAN, g << 24 | address(ch)), concat!(stringify!($t), ": set_group and set_optional_channel change the group and address of every packet and nothing else"));
                        }
                    }
                    // two packets, their first words constant
                    {
                        let mut b: [u32; 8] = any_buf(s);
                        b[0] = 0xD560_0000 | $bank << 8 | $st;
                        b[4] = 0xD5DA_0000 | $bank << 8 | $st;
                        let mut m: midi2::$md::$t<Grow<u32, 8>> = midi2::$md::$t::<&[u32]>::try_from(&b[..]).ok().unwrap().rebuffer_into();
                        let g = s.bits(4) as u32;
                        m.set_group(u4::new(g as u8));
                        post!(every(&b[..], m.data(), 4, GROUP, g << 24), concat!(stringify!($t), ": set_group changes the group of every packet and nothing else"));
                    }
                    {
                        let mut b: [u32; 8] = any_buf(s);
                        b[0] = 0xDA4A_0000 | $bank << 8 | $st;
                        b[4] = 0xDAD6_0000 | $bank << 8 | $st;
                        let mut m: midi2::$md::$t<Grow<u32, 8>> = midi2::$md::$t::<&[u32]>::try_from(&b[..]).ok().unwrap().rebuffer_into();
                        let ch = channel(s);
                        m.set_optional_channel(ch);
                        post!(every(&b[..], m.data(), 4, CHAN, address(ch)), concat!(stringify!($t), ": set_optional_channel changes the address of every packet and nothing else"));
                    }
                }
            )* }
        }
        /// One of the texts, many packets, in a window with something behind it.
        fn texts_native<S: Src>(s: &mut S) {
            let pick = s.upto(17);
            let mut at = 0;
            $( { if at == pick {
                const K: Kind = flex($bank, $st);
                let mut b: [u32; 40] = any_buf(s);
                let p = 1 + s.upto(8);
                grouped!(s, K, $t, Grow<u32, 40>, b, p, midi2::$md::$t);
                let r = midi2::$md::$t::<&[u32]>::try_from(&b[..4 * p]);
                let mut m: midi2::$md::$t<Grow<u32, 40>> = r.ok().unwrap().rebuffer_into();
                let ch = channel(s);
                m.set_optional_channel(ch);
                post!(m.optional_channel() == ch && every(&b[..4 * p], m.data(), 4, CHAN, address(ch)), concat!(stringify!($t), ": optional channel"));
                let g = s.bits(4) as u32;
                let mut a: midi2::flex_data::FlexData<_> = m.into();
                a.set_group(u4::new(g as u8));
                post!(a.group() == u4::new(g as u8), concat!(stringify!($t), ": through the aggregate"));
                post!(every(&b[..4 * p], Data::data(&a), 4, GROUP | CHAN, g << 24 | address(ch)), concat!(stringify!($t), ": set_group through the aggregate changes the group of every packet and nothing else"));
                // a window larger than the message
                let mut st: [u32; 40] = any_buf(s);
                let mut old = [0u32; 40];
                let l = length(s, 12, 8);
                let t: Text<96> = text(s, l);
                let e = K.words(l);
                let ch = channel(s);
                {
                    let mut m = midi2::$md::$t::<&mut [u32]>::try_new_with_buffer(&mut st[..]).ok().unwrap();
                    post!(m.try_set_text(t.str()).is_ok(), "fits");
                }
                // (the rest of the window may hold more of the same kind)
                if e < 40 && s.bool() {
                    st[e] = s.u32();
                }
                for i in 0..40 { old[i] = st[i]; }
                {
                    let mut m = midi2::$md::$t::<&mut [u32]>::try_new_with_buffer(&mut st[..]).ok().unwrap();
                    let _ = m.try_set_text(t.str());
                    m.set_optional_channel(ch);
                    let mut a: midi2::flex_data::FlexData<_> = m.into();
                    a.set_group(u4::new(g as u8));
                }
                post!(st[e..] == old[e..], concat!(stringify!($t), ": nothing after the message"));
                post!(every(&old[..e], &st[..e], 4, GROUP | CHAN, g << 24 | address(ch)), concat!(stringify!($t), ": the message in its window"));
                cov!(s, p > 2 && e > 12, "long");
            } at += 1; } )*
        }
    };
}
crate::for_each_text!(c16_text);

pub mod sysex {
    use super::*;
    crate::harnesses! {
        sysex7_1 (14) = |s| { let mut b: [u32; 2] = any_buf(s); grouped!(s, SYSEX7, Sysex7, Grow<u32, 2>, b, 1, midi2::sysex7::Sysex7) }
        sysex7_2 (14) = |s| { let mut b: [u32; 4] = any_buf(s); grouped!(s, SYSEX7, Sysex7, Grow<u32, 4>, b, 2, midi2::sysex7::Sysex7) }
        sysex7_3 (14) = |s| { let mut b: [u32; 6] = any_buf(s); grouped!(s, SYSEX7, Sysex7, Grow<u32, 6>, b, 3, midi2::sysex7::Sysex7) }
        sysex8_1 (14) = |s| { let mut b: [u32; 4] = any_buf(s); grouped!(s, SYSEX8, Sysex8, Grow<u32, 4>, b, 1, midi2::sysex8::Sysex8) }
        sysex8_2 (14) = |s| { let mut b: [u32; 8] = any_buf(s); grouped!(s, SYSEX8, Sysex8, Grow<u32, 8>, b, 2, midi2::sysex8::Sysex8) }
        sysex7_window (14) = |s| {
            let mut st: [u32; 6] = any_buf(s);
            let old = st;
            let g = s.bits(4) as u32;
            let mut w = [0u32; 2];
            if let Ok(mut m) = midi2::sysex7::Sysex7::<&mut [u32]>::try_new_with_buffer(&mut st[..]) {
                w[0] = m.data()[0];
                w[1] = m.data()[1];
                m.set_group(u4::new(g as u8));
            }
            post!(every(&w, &st[..2], 2, GROUP, g << 24), "Sysex7: new message: set_group");
            post!(same(&st[2..], &old[2..]), "Sysex7: nothing after the message");
        }
        sysex8_window (14) = |s| {
            let mut st: [u32; 8] = any_buf(s);
            let old = st;
            let g = s.bits(4) as u32;
            let mut w = [0u32; 4];
            if let Ok(mut m) = midi2::sysex8::Sysex8::<&mut [u32]>::try_new_with_buffer(&mut st[..]) {
                let mut i = 0;
                while i < 4 { w[i] = m.data()[i]; i += 1; }
                m.set_group(u4::new(g as u8));
            }
            post!(every(&w, &st[..4], 4, GROUP, g << 24), "Sysex8: new message: set_group");
            post!(same(&st[4..], &old[4..]), "Sysex8: nothing after the message");
        }
    }
}
/// Packets on their own.
pub mod packets {
    use super::*;
    macro_rules! packet {
        ($( $n:ident, $md:ident, $ty:expr, $stride:expr, $min:expr, [$(($get:ident, $set:ident, $tr:ident, $mask:expr, $sh:expr)),*]; )*) => {
            crate::harnesses! { $(
                $n (9) = |s| {
                    let mut b: [u32; $stride] = any_buf(s);
                    b[0] = b[0] & 0x0FFF_FFFF | $ty << 28;
                    if let Ok(mut p) = midi2::$md::Packet::try_from(&b[..]) {
                        cov!(s, true, "accepted");
                        let mut mask = 0u32;
                        let mut bits = 0u32;
                        $( {
                            post!(u8::from($tr::$get(&p)) as u32 == (b[0] >> $sh) & 0xF, concat!(stringify!($n), ": ", stringify!($get)));
                            let v = s.bits(4) as u32;
                            $tr::$set(&mut p, u4::new(v as u8));
                            mask |= $mask;
                            bits |= v << $sh;
                            post!($tr::$get(&p) == u4::new(v as u8), concat!(stringify!($n), ": ", stringify!($set), " then get"));
                            post!(every(&b, &p, $stride, mask, bits), concat!(stringify!($n), ": ", stringify!($set), " changes its bits only"));
                        } )*
                        let _ = (mask, bits, &mut p);
                    }
                }
            )* }
        };
    }
    packet! {
        cv1, channel_voice1, 2, 1, 1, [(group, set_group, Grouped, GROUP, 24), (channel, set_channel, Channeled, 0x000F_0000, 16)];
        cv2, channel_voice2, 4, 2, 1, [(group, set_group, Grouped, GROUP, 24), (channel, set_channel, Channeled, 0x000F_0000, 16)];
        sc, system_common, 1, 1, 1, [(group, set_group, Grouped, GROUP, 24)];
        sx7, sysex7, 3, 2, 2, [(group, set_group, Grouped, GROUP, 24)];
        sx8, sysex8, 5, 4, 4, [(group, set_group, Grouped, GROUP, 24)];
        fx, flex_data, 0xD, 4, 2, [(group, set_group, Grouped, GROUP, 24)];
    }
}

macro_rules! long {
    ($s:ident, $k:expr, $t:ident, $bt:ty, $cap:expr, $($path:ident)::+) => {{
        let k = $k;
        let mut b: [u32; 40] = any_buf($s);
        let p = 1 + $s.upto(8);
        grouped!($s, k, $t, Grow<u32, 40>, b, p, $($path)::+);
        // a window larger than the message
        let mut st: [u32; 40] = any_buf($s);
        let g = $s.bits(4) as u32;
        let l = length($s, $cap, 8);
        let d: [u8; 112] = data($s, l, <$bt as By>::BITS);
        let e = k.words(l);
        let mut old = [0u32; 40];
        for round in 0..2 {
            let mut m = $($path)::+::<&mut [u32]>::try_new_with_buffer(&mut st[..]).ok().unwrap();
            post!(m.try_set_payload(d[..l].iter().map(|v| <$bt as By>::mk(*v))).is_ok(), "fits");
            if round == 1 {
                m.set_group(u4::new(g as u8));
                post!(m.group() == u4::new(g as u8) && m.data().len() == e, "group read back");
            } else {
                for i in 0..40 { old[i] = st[i]; }
            }
        }
        post!(st[e..] == old[e..], concat!(stringify!($t), ": nothing after the message"));
        post!(every(&old[..e], &st[..e], k.stride, GROUP, g << 24), concat!(stringify!($t), ": the message in its window"));
        cov!($s, p > 2 && l > 2 * $cap, "long");
    }};
}
crate::natives! {
    big = |s| { crate::big::c16(s) }
    texts = |s| { texts_native(s) }
    sysex7 = |s| { long!(s, SYSEX7, Sysex7, u7, 6, midi2::sysex7::Sysex7) }
    sysex8 = |s| { long!(s, SYSEX8, Sysex8, u8, 13, midi2::sysex8::Sysex8) }
}
