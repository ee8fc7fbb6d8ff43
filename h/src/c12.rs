//! C12: payload iteration yields the packets' bytes in order and keeps its contract.
use crate::edit::By;
use crate::spec::*;
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;

/// The iterator has exactly `want` left to yield, and says so.
fn left<T: By, I: ExactSizeIterator<Item = T>>(it: &I, want: usize) -> bool {
    it.len() == want && it.size_hint() == (want, Some(want))
}
/// `steps` steps (or skips of any distance), then one more look at what remains.
pub fn walk<T: By, S: Src, I: ExactSizeIterator<Item = T>>(s: &mut S, it: I, want: &[u8], steps: usize, skip: usize) -> bool {
    let mut it = it;
    let mut at = 0;
    let mut k = 0;
    if !left(&it, want.len()) {
        return false;
    }
    while k < steps {
        let n = s.upto(skip + 2);
        // skip + 1: further than any payload reaches; skip + 2: a plain step
        let (n, got) = if n == skip + 2 {
            (0, it.next())
        } else if n == skip + 1 {
            (usize::MAX, it.nth(usize::MAX))
        } else {
            (n, it.nth(n))
        };
        let to = if n < want.len() - at { at + n } else { want.len() };
        let ok = if to < want.len() { matches!(got, Some(v) if v.val() == want[to]) } else { got.is_none() };
        at = if to < want.len() { to + 1 } else { to };
        if !ok || !left(&it, want.len() - at) {
            return false;
        }
        k += 1;
    }
    it.count() == want.len() - at
}
/// All of it, one step at a time, and nothing after that.
pub fn all<T: By, I: ExactSizeIterator<Item = T>>(it: I, want: &[u8]) -> bool {
    let mut it = it;
    let mut i = 0;
    while i < want.len() {
        if !left(&it, want.len() - i) {
            return false;
        }
        match it.next() {
            Some(v) if v.val() == want[i] => {}
            _ => return false,
        }
        i += 1;
    }
    left(&it, 0) && it.next().is_none() && it.next().is_none() && it.nth(0).is_none() && it.nth(3).is_none() && it.nth(usize::MAX).is_none() && left(&it, 0)
}
macro_rules! packet {
    ($s:ident, $k:expr, $t:ty, $n:expr, $what:expr) => {{
        let mut b: [u32; $n] = any_buf($s);
        b[0] = b[0] & 0x0FFF_FFFF | $k.ty << 28;
        let r = <$t>::try_from(&b[..]);
        cov!($s, r.is_ok(), "accepted");
        if let Ok(p) = r {
            let mut out = [0u8; 16];
            let l = $k.len(b[0]);
            pre!($s, l <= $k.cap);
            let mut i = 0;
            while i < l {
                out[i] = $k.octet(&b, 0, i) & if $k.sized == 1 { 0x7F } else { 0xFF };
                i += 1;
            }
            post!(all(p.payload(), &out[..l]), concat!($what, ": every byte in order"));
            post!(walk($s, p.payload(), &out[..l], 3, 15), concat!($what, ": any steps and skips"));
        }
    }};
}
crate::harnesses! {
    sysex7_packet (18) = |s| { packet!(s, SYSEX7, midi2::sysex7::Packet, 2, "sysex7 packet") }
    sysex8_packet (18) = |s| { packet!(s, SYSEX8, midi2::sysex8::Packet, 4, "sysex8 packet") }
    bytes (12) = |s| {
        let mut b: [u8; 9] = any_buf(s);
        b[0] = 0xF0;
        let n = 2 + s.upto(7);
        let r = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..n]);
        cov!(s, r.is_ok() && n > 6, "accepted");
        if let Ok(m) = r {
            let e = accept_bytes(&b[..n]);
            pre!(s, e.is_some());
            let e = e.unwrap();
            post!(m.payload_size() == e - 2, "payload size");
            post!(all(m.payload(), &b[1..e - 1]), "every byte in order");
            post!(walk(s, m.payload(), &b[1..e - 1], 2, 9), "any steps and skips");
        }
    }
}
/// Messages of given declared sizes (constants, so that every loop over them resolves), with
/// arbitrary payload octets outside the first words: every byte, and one skip to every byte.
macro_rules! sizes {
    ($s:ident, $k:expr, $t:ty, [$($z:expr),*]) => {{
        const Z: &[usize] = &[$($z),*];
        const STRIDE: usize = $k.stride;
        let mut b: [u32; Z.len() * STRIDE] = any_buf($s);
        let mut total = 0;
        for k in 0..Z.len() {
            let form = if Z.len() == 1 { 0 } else if k == 0 { 1 } else if k == Z.len() - 1 { 3 } else { 2 };
            b[k * STRIDE] = $k.ty << 28 | form << $k.form_shift | (Z[k] as u32 + $k.sized as u32 - 1) << 16 | if $k.sized == 1 { 0x7F00 + k as u32 } else { 0x0500 + k as u32 };
            total += Z[k];
        }
        let m = <$t>::try_from(&b[..]).ok().unwrap();
        post!(m.payload_size() == total, "payload size");
        let mut it = m.payload();
        let mut at = 0;
        for k in 0..Z.len() {
            for i in 0..Z[k] {
                let v = it.next();
                at += 1;
                let want = $k.octet(&b, k, i) & if $k.sized == 1 { 0x7F } else { 0xFF };
                post!(matches!(v, Some(v) if v.val() == want), "every byte in order");
                post!(left(&it, total - at), "remaining length");
            }
        }
        post!(it.next().is_none(), "nothing after the last byte");
        let mut at = 0;
        for k in 0..Z.len() {
            for i in 0..Z[k] {
                let mut it = m.payload();
                let v = it.nth(at);
                at += 1;
                let want = $k.octet(&b, k, i) & if $k.sized == 1 { 0x7F } else { 0xFF };
                post!(matches!(v, Some(v) if v.val() == want), "skipping reaches exactly that byte");
                post!(left(&it, total - at), "remaining length after skipping");
            }
        }
        let mut it = m.payload();
        post!(it.nth(at).is_none() && left(&it, 0), "skipping past the end");
    }};
}
pub mod sizes {
    use super::*;
    crate::harnesses! {
        sysex7_0 (14) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [0]) }
        sysex7_6 (14) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [6]) }
        sysex7_0_0 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [0, 0]) }
        sysex7_6_6 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [6, 6]) }
        sysex7_0_6 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [0, 6]) }
        sysex7_6_0 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [6, 0]) }
        sysex7_3_2 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [3, 2]) }
        sysex7_1_0_6 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [1, 0, 6]) }
        sysex7_0_0_4 (18) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [0, 0, 4]) }
        sysex7_6_5_6_1 (24) = |s| { sizes!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>, [6, 5, 6, 1]) }
        sysex8_0 (18) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [0]) }
        sysex8_13 (19) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [13]) }
        sysex8_0_0 (18) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [0, 0]) }
        sysex8_13_13 (32) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [13, 13]) }
        sysex8_0_13 (19) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [0, 13]) }
        sysex8_13_0 (19) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [13, 0]) }
        sysex8_7_2 (18) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [7, 2]) }
        sysex8_2_0_11 (19) = |s| { sizes!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>, [2, 0, 11]) }
    }
}
macro_rules! long {
    ($s:ident, $k:expr, $t:ty) => {{
        let mut b: [u32; 52] = any_buf($s);
        let p = 1 + $s.upto(11);
        $k.make($s, &mut b, p);
        // empty and full packets more often than chance has them
        for i in 0..p {
            let w = &mut b[i * $k.stride];
            match $s.upto(5) {
                0 => *w = *w & !0xF_0000 | ($k.sized as u32 - 1) << 16,
                1 => *w = *w & !0xF_0000 | ($k.cap as u32 + $k.sized as u32 - 1) << 16,
                _ => {}
            }
        }
        let e = p * $k.stride;
        if b[e] >> 28 == $k.ty {
            b[e] ^= 0x1000_0000;
        }
        let n = e + $s.upto(4);
        let r = <$t>::try_from(&b[..n]);
        post!(r.is_ok(), "accepted");
        let m = r.ok().unwrap();
        let mut out = [0u8; 256];
        let l = $k.payload(&b, p, &mut out);
        post!(m.payload_size() == l, "payload size");
        post!(all(m.payload(), &out[..l]), "every byte in order");
        let skip = [2, 8, 30][$s.upto(2)];
        post!(walk($s, m.payload(), &out[..l], 6, skip), "any steps and skips");
        cov!($s, l > 40, "long");
    }};
}
crate::natives! {
    big = |s| { crate::big::c12(s) }
    sysex7 = |s| { long!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>) }
    sysex8 = |s| { long!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>) }
    long_bytes = |s| {
        let n = s.upto(60);
        let mut b = [0u8; 70];
        b[0] = 0xF0;
        for i in 0..n { b[1 + i] = s.bits(7) as u8; }
        b[n + 1] = 0xF7;
        let e = n + 2 + s.upto(5);
        let r = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..e]);
        post!(r.is_ok(), "accepted");
        let m = r.ok().unwrap();
        post!(m.payload_size() == n, "payload size");
        post!(all(m.payload(), &b[1..n + 1]), "every byte in order");
        post!(walk(s, m.payload(), &b[1..n + 1], 6, 20), "any steps and skips");
        cov!(s, n > 20, "long");
    }
}
