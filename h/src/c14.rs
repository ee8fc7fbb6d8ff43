//! C14: flex data text round-trips and keeps packet headers consistent.
use crate::edit::*;
use crate::spec::*;
use crate::src::Src;
use crate::text::*;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

pub const CARRY: u32 = 0x0F3F_0000;
pub fn carry(g: u32, ch: Option<u4>) -> (u32, u32) {
    let a = match ch {
        Some(c) => u8::from(c) as u32,
        None => 0x10,
    };
    (CARRY, g << 24 | a << 16)
}
pub fn channel<S: Src>(s: &mut S) -> Option<u4> {
    if s.bool() {
        Some(u4::new(s.bits(4) as u8))
    } else {
        None
    }
}
/// The message holds exactly this text with these headers, and every way of reading agrees.
macro_rules! holds {
    ($m:expr, $k:expr, $t:expr, $g:expr, $ch:expr, $what:expr) => {{
        post!($k.compact($m.data(), $t, carry($g, $ch)), concat!($what, ": packets, forms and headers"));
        post!(reads_text($m.text_bytes(), $t), concat!($what, ": text reads back"));
        post!($m.group() == u4::new($g as u8) && $m.optional_channel() == $ch, concat!($what, ": group and channel read back"));
        #[cfg(feature = "std")]
        post!($m.text().as_bytes() == $t, concat!($what, ": text string reads back"));
    }};
}
pub fn reads_text(it: impl Iterator<Item = u8>, t: &[u8]) -> bool {
    let mut it = it;
    let mut i = 0;
    while i < t.len() {
        match it.next() {
            Some(v) if v == t[i] => {}
            _ => return false,
        }
        i += 1;
    }
    it.next().is_none() && it.next().is_none()
}
// Setting a text of LEN bytes on a new message over any storage of W words.
macro_rules! c14_set {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        crate::harnesses! { $(
            $n (28) = |s| {
                const K: Kind = flex($bank, $st);
                let g = s.bits(4) as u32;
                let ch = channel(s);
                let mut b: [u32; W] = any_buf(s);
                let t: Text<LEN> = text(s, LEN);
                {
                    let mut m = $($p)::+::try_new_with_buffer(&mut b[..]).ok().unwrap();
                    m.set_group(u4::new(g as u8));
                    m.set_optional_channel(ch);
                    post!(m.try_set_text(t.str()).is_ok(), concat!(stringify!($n), ": it fits"));
                }
                post!(K.compact(&b[..K.words(LEN)], t.bytes(), carry(g, ch)), concat!(stringify!($n), ": packets, forms, headers and text after set_text"));
                cov!(s, true, "reached");
            }
        )* }
    };
}
pub mod set_0 {
    use super::*;
    const LEN: usize = 0;
    const W: usize = 8;
    crate::for_each_text!(c14_set);
}
pub mod set_12 {
    use super::*;
    const LEN: usize = 12;
    const W: usize = 8;
    crate::for_each_text!(c14_set);
}
pub mod set_13 {
    use super::*;
    const LEN: usize = 13;
    const W: usize = 12;
    crate::for_each_text!(c14_set);
}
pub mod set_25 {
    use super::*;
    const LEN: usize = 25;
    const W: usize = 12;
    crate::for_each_text!(c14_set);
}
macro_rules! c14 {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        fn run<S: Src>(s: &mut S) {
            let pick = s.upto(17);
            let mut at = 0;
            $( {
                if at == pick {
                    const K: Kind = flex($bank, $st);
                    let mut m;
                    let mut x: Text<96> = Text { a: [0; 96], n: 0 };
                    let mut g = 0;
                    let mut ch = Some(u4::new(0));
                    let mut exact = true;
                    if s.bool() {
                        m = $($p)::+::<Grow<u32, 60>>::new();
                        // the default address is the group
                        ch = m.optional_channel();
                    } else {
                        // some other text message, perhaps with padding inside its text, perhaps followed by more
                        let n = length(s, 12, 5);
                        x = text(s, n);
                        let p = K.words(n) / 4 + s.upto(1);
                        let mut b: [u32; 28] = any_buf(s);
                        K.make(s, &mut b, p);
                        g = b[0] >> 24 & 0xF;
                        ch = channel(s);
                        for i in 0..p {
                            b[4 * i] = b[4 * i] & !CARRY | carry(g, ch).1;
                            for j in 0..12 {
                                let (w, o) = (4 * i + 1 + j / 4, 24 - 8 * (j % 4));
                                let v = if 12 * i + j < n { x.a[12 * i + j] } else { 0 } as u32;
                                b[w] = b[w] & !(0xFF << o) | v << o;
                            }
                        }
                        if b[4 * p] >> 28 == 0xD { b[4 * p] ^= 0x1000_0000; }
                        let e = 4 * p + s.upto(3);
                        let r = $($p)::+::<&[u32]>::try_from(&b[..e]);
                        post!(r.is_ok(), concat!(stringify!($n), ": accepted"));
                        m = r.ok().unwrap().rebuffer_into();
                        exact = 4 * p == K.words(n);
                    }
                    for _ in 0..1 + s.upto(4) {
                        match s.upto(4) {
                            0 => {
                                g = s.bits(4) as u32;
                                m.set_group(u4::new(g as u8));
                            }
                            1 => {
                                ch = channel(s);
                                m.set_optional_channel(ch);
                            }
                            2 => {
                                let mut a: midi2::flex_data::FlexData<_> = m.into();
                                g = s.bits(4) as u32;
                                a.set_group(u4::new(g as u8));
                                let r = $($p)::+::<&[u32]>::try_from(a.data());
                                post!(r.is_ok(), "the same message after setting the group of the aggregate");
                                m = r.ok().unwrap().rebuffer_into();
                            }
                            _ => {
                                let n = length(s, 12, 7);
                                x = text(s, n);
                                m.set_text(x.str());
                                exact = true;
                            }
                        }
                        if exact {
                            holds!(m, K, x.bytes(), g, ch, stringify!($n));
                        } else {
                            post!(K.accept(m.data()) == Some(m.data().len() / 4), concat!(stringify!($n), ": well formed"));
                            post!(reads_text(m.text_bytes(), x.bytes()), concat!(stringify!($n), ": text kept"));
                            post!(m.group() == u4::new(g as u8) && m.optional_channel() == ch, concat!(stringify!($n), ": group and channel"));
                            let mut i = 0;
                            while i < m.data().len() {
                                post!(m.data()[i] & CARRY == carry(g, ch).1, concat!(stringify!($n), ": the same header in every packet"));
                                i += 4;
                            }
                        }
                        post!($($p)::+::<&[u32]>::try_from(m.data()).is_ok(), concat!(stringify!($n), ": accepted again"));
                    }
                    cov!(s, x.n > 24, "long");
                }
                at += 1;
            } )*
        }
    };
}
crate::for_each_text!(c14);
// Reading the text of any accepted message of one packet.
crate::harnesses! {
    #[cfg(any(feature = "deep", not(kani)))] read (14) = |s| {
        let b: [u32; 4] = any_buf(s);
        if let Ok(m) = midi2::flex_data::Lyrics::<&[u32]>::try_from(&b[..]) {
            let mut it = m.text_bytes();
            let mut j = 0;
            while j < 12 {
                let v = (b[1 + j / 4] >> (24 - 8 * (j % 4))) as u8;
                if v != 0 {
                    post!(it.next() == Some(v), "the bytes of the text in order");
                }
                j += 1;
            }
            post!(it.next().is_none() && it.next().is_none(), "ends, and stays ended");
            cov!(s, true, "accepted");
        }
    }
}
crate::natives! {
    big = |s| { crate::big::c14(s) }
    texts = |s| { run(s) }
}
