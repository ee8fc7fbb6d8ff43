//! C10: editing a 7-bit sysex payload acts like editing a byte sequence.
use crate::edit::*;
use crate::spec::*;
use crate::src::Src;
use crate::val::any_buf;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::sysex7::Sysex7;

macro_rules! ump_state {
    ($m:ident, $k:expr, $pl:expr, $carry:expr, $what:expr) => {{
        post!($k.compact($m.data(), $pl, $carry), concat!($what, ": well formed, compact, padding zero, same group"));
        post!(reads($m.payload(), $pl), concat!($what, ": payload reads back"));
        post!($m.payload_size() == $pl.len(), concat!($what, ": payload size"));
    }};
}

// ---- small shapes (Kani) -----------------------------------------------------------------
/// A payload octet: arbitrary, unless it is at some time in the first word of a packet next to
/// the declared size (there it is a constant tag, so that sizes stay constants for the verifier).
fn octet<S: Src>(s: &mut S, tag: usize, at: [Option<usize>; 2], first: usize, cap: usize) -> u8 {
    let mut free = true;
    for p in at {
        if let Some(p) = p {
            free = free && (p % cap) + first >= 4;
        }
    }
    if free { s.bits(7) as u8 } else { (tag * 5 + 3) as u8 & 0x7F }
}
/// A message with payload length `l` replaces payload range a..b by `d` bytes offered with
/// size hint (d - lo, d + hi).
fn sp<S: Src>(s: &mut S, l: usize, a: usize, b: usize, d: usize, lo: usize, hi: Option<usize>) {
    let mut d0 = [0u8; 24];
    let mut d1 = [0u8; 24];
    let mut x = [0u8; 40];
    for i in 0..l {
        let end = if i < a { Some(i) } else if i < b { None } else { Some(i - b + a + d) };
        d0[i] = octet(s, i, [Some(i), end], 2, 6);
        if let Some(e) = end {
            x[e] = d0[i];
        }
    }
    for i in 0..d {
        d1[i] = octet(s, l + i, [Some(a + i), None], 2, 6);
        x[a + i] = d1[i];
    }
    let mut m = Sysex7::<Grow<u32, 32>>::new();
    m.set_group(u4::new(9));
    m.set_payload(it::<u7>(&d0[..l], 0, Some(0)));
    post!(SYSEX7.compact(m.data(), &d0[..l], (0x0F00_0000, 9 << 24)), "set_payload: well formed, compact, padding zero, same group");
    m.splice_payload(it::<u7>(&d1[..d], lo, hi), a..b);
    cov!(s, true, "edited");
    post!(SYSEX7.compact(m.data(), &x[..l - (b - a) + d], (0x0F00_0000, 9 << 24)), "splice_payload: well formed, compact, padding zero, same group");
    post!(m.payload_size() == l - (b - a) + d, "payload size");
}
fn spb<S: Src>(s: &mut S, l: usize, a: usize, b: usize, d: usize, lo: usize, hi: Option<usize>) {
    let d0: [u8; 16] = data(s, l, 7);
    let d1: [u8; 16] = data(s, d, 7);
    let mut m = Sysex7::<Grow<u8, 40>>::new();
    m.set_payload(it::<u7>(&d0[..l], 0, Some(0)));
    let mut x = Model::new();
    x.splice(0, 0, &d0[..l]);
    post!(framed_bytes(m.data(), x.get()), "set_payload bytes");
    m.splice_payload(it::<u7>(&d1[..d], lo, hi), a..b);
    x.splice(a, b, &d1[..d]);
    cov!(s, true, "edited");
    post!(framed_bytes(m.data(), x.get()), "splice_payload bytes: framing and payload");
    post!(reads(m.payload(), x.get()), "splice_payload bytes: payload reads back");
}
crate::harnesses! {
    u_ins (40) = |s| { sp(s, 5, 2, 2, 3, 0, Some(0)) }
    u_shrink (40) = |s| { sp(s, 14, 3, 9, 1, 0, Some(0)) }
    b_ins_mid (40) = |s| { spb(s, 5, 2, 2, 3, 0, Some(0)) }
    b_shrink (40) = |s| { spb(s, 8, 2, 7, 1, 0, Some(0)) }
    b_under (40) = |s| { spb(s, 4, 1, 2, 7, 7, None) }
    b_over (40) = |s| { spb(s, 4, 1, 3, 2, 2, Some(9)) }
}

crate::natives! {
    big_ump = |s| { crate::big::c10_ump(s) }
    big_bytes = |s| { crate::big::c10_bytes(s) }
    // a few edits in a row on a growable UMP message, from a new or an arbitrary accepted one
    seq_ump = |s| {
        let mut x = Model::new();
        let mut g = s.bits(4) as u32;
        let mut plain = true;
        let mut m;
        if s.bool() {
            m = Sysex7::<Grow<u32, 400>>::new();
            m.set_group(u4::new(g as u8));
        } else {
            let n = 1 + s.upto(4);
            let mut b: [u32; 12] = any_buf(s);
            SYSEX7.make(s, &mut b, n);
            // the unused top bit of 7-bit data is zero
            for k in 0..n {
                b[2 * k] &= 0xFFFF_7F7F;
                b[2 * k + 1] &= 0x7F7F_7F7F;
            }
            if s.bool() {
                b[2 * n] = b[2 * n] & 0x0FFF_FFFF | 0x5000_0000;
            }
            g = b[0] >> 24 & 0xF;
            let e = if b[2 * n] >> 28 == 3 { 2 * n } else { 12 };
            let p = Sysex7::<&[u32]>::try_from(&b[..e]);
            pre!(s, p.is_ok());
            m = p.ok().unwrap().rebuffer_into();
            x.n = SYSEX7.payload(&b, n, &mut x.a);
            plain = false;
        }
        let k = 1 + s.upto(3);
        for _ in 0..k {
            let o = crate::sysexops::op(s, x.n, 7, 280);
            crate::sysexops::edit::<u7, _, _>(&mut m, x.n, &o);
            crate::sysexops::apply(&mut x, &o);
            plain = plain || o.kind != 9;
            post!(reads(m.payload(), x.get()), "payload equals the edited byte sequence");
            post!(m.payload_size() == x.n, "payload size");
            if plain {
                ump_state!(m, SYSEX7, x.get(), (0x0F00_0000, g << 24), "edit");
            } else {
                post!(SYSEX7.accept(m.data()) == Some(m.data().len() / 2), "still well formed");
            }
            post!(m.group() == u4::new(g as u8), "group");
            post!(Sysex7::<&[u32]>::try_from(m.data()).is_ok(), "accepted again");
            if s.upto(4) == 0 {
                g = s.bits(4) as u32;
                m.set_group(u4::new(g as u8));
                post!(reads(m.payload(), x.get()), "set_group keeps the payload");
            }
        }
        cov!(s, x.n > 6, "several packets");
    }
    seq_bytes = |s| {
        let mut x = Model::new();
        let mut m;
        if s.bool() {
            m = Sysex7::<Grow<u8, 700>>::new();
        } else {
            let n = s.upto(20);
            let d: [u8; 24] = data(s, n, 7);
            let mut b: [u8; 30] = any_buf(s);
            b[0] = 0xF0;
            b[1..1 + n].copy_from_slice(&d[..n]);
            b[1 + n] = 0xF7;
            let e = n + 2 + s.upto(8);
            let p = Sysex7::<&[u8]>::try_from(&b[..e]);
            pre!(s, p.is_ok());
            m = p.ok().unwrap().rebuffer_into();
            x.splice(0, 0, &d[..n]);
        }
        let k = 1 + s.upto(3);
        for _ in 0..k {
            let o = crate::sysexops::op(s, x.n, 7, 280);
            crate::sysexops::edit::<u7, _, _>(&mut m, x.n, &o);
            crate::sysexops::apply(&mut x, &o);
            post!(framed_bytes(m.data(), x.get()), "F0, the edited byte sequence, F7");
            post!(reads(m.payload(), x.get()), "payload equals the edited byte sequence");
            post!(m.payload_size() == x.n, "payload size");
            post!(Sysex7::<&[u8]>::try_from(m.data()).is_ok(), "accepted again");
        }
        cov!(s, x.n > 6, "long");
    }
}
