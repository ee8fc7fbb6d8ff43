//! Arbitrary sequences of payload edits against the byte-sequence model (native, bounded).
use crate::edit::*;
use crate::spec::*;
use crate::src::Src;
use midi2::buffer::*;
use midi2::prelude::*;

/// One arbitrary edit: kind, range, data, size-hint slack.
pub struct Op {
    pub kind: usize,
    pub from: usize,
    pub to: usize,
    pub d: [u8; 64],
    pub n: usize,
    pub lo: usize,
    pub hi: Option<usize>,
}
pub fn op<S: Src>(s: &mut S, len: usize, bits: u32, room: usize) -> Op {
    let kind = s.upto(9);
    let a = s.upto(if len < 250 { len } else { 250 });
    let b = s.upto(if len < 250 { len } else { 250 });
    let (from, to) = match kind {
        0 => (0, len),          // set_payload
        1 | 2 => (len, len),    // append_payload, append_byte
        3 => (a, a),            // insert_payload
        _ => (a.min(b), a.max(b)),
    };
    let max = if kind == 2 || kind == 9 { 1 } else { [3, 8, 17, 40][s.upto(3)] };
    let n = if kind == 2 || kind == 9 { 1 } else { s.upto(max) };
    let n = n.min(room.saturating_sub(len - (to - from)));
    let d = data(s, n, bits);
    let lo = if s.bool() { 0 } else { s.upto(n) };
    let hi = match s.upto(3) {
        0 => None,
        1 => Some(0),
        2 => Some(s.upto(30)),
        _ => Some([1usize, 200, 1 << 20, 1 << 40][s.upto(3)]),
    };
    Op { kind, from, to, d, n, lo, hi }
}

/// Apply to the model; kind 9 replaces one byte, when there is one.
pub fn apply(x: &mut Model, o: &Op) {
    if o.kind == 9 {
        if o.from < x.n && o.n == 1 {
            x.a[o.from] = o.d[0];
        }
    } else {
        x.splice(o.from, o.to, &o.d[..o.n]);
    }
}

/// The same edit on a growable message.
pub fn edit<T: By, B: Buffer + BufferMut + BufferResize, M: Sysex<B, Byte = T>>(m: &mut M, len: usize, o: &Op) {
    // an upper bound on the size has to be affordable for growable storage
    let hi = o.hi.map(|h| h.min(200));
    let i = it::<T>(&o.d[..o.n], o.lo, hi);
    match o.kind {
        0 => m.set_payload(i),
        1 => m.append_payload(i),
        2 if o.n == 1 => m.append_byte(T::mk(o.d[0])),
        2 => m.append_payload(i),
        3 => m.insert_payload(i, o.from),
        4 | 5 => m.splice_payload(i, o.from..o.to),
        6 if o.to > o.from => m.splice_payload(i, o.from..=o.to - 1),
        6 => m.splice_payload(i, o.from..o.to),
        7 if o.to == len => m.splice_payload(i, o.from..),
        7 if o.from == 0 => m.splice_payload(i, ..o.to),
        7 => m.splice_payload(i, o.from..o.to),
        8 if o.from > 0 => m.splice_payload(i, (core::ops::Bound::Excluded(o.from - 1), core::ops::Bound::Excluded(o.to))),
        8 => m.splice_payload(i, ..o.to),
        _ => {
            if o.from < len && o.n == 1 {
                m.set_byte(T::mk(o.d[0]), o.from)
            }
        }
    }
}

/// The same edit on fixed-capacity storage.
pub fn try_edit<T: By, B: Buffer + BufferMut + BufferTryResize, M: Sysex<B, Byte = T>>(m: &mut M, len: usize, o: &Op) -> bool {
    let i = it::<T>(&o.d[..o.n], o.lo, o.hi);
    let r = match o.kind {
        0 => m.try_set_payload(i),
        1 => m.try_append_payload(i),
        2 if o.n == 1 => m.try_append_byte(T::mk(o.d[0])),
        2 => m.try_append_payload(i),
        3 => m.try_insert_payload(i, o.from),
        4 | 5 => m.try_splice_payload(i, o.from..o.to),
        6 if o.to > o.from => m.try_splice_payload(i, o.from..=o.to - 1),
        6 => m.try_splice_payload(i, o.from..o.to),
        7 if o.to == len => m.try_splice_payload(i, o.from..),
        7 if o.from == 0 => m.try_splice_payload(i, ..o.to),
        7 => m.try_splice_payload(i, o.from..o.to),
        8 if o.from > 0 => m.try_splice_payload(i, (core::ops::Bound::Excluded(o.from - 1), core::ops::Bound::Excluded(o.to))),
        8 => m.try_splice_payload(i, ..o.to),
        _ => {
            if o.from < len && o.n == 1 {
                m.set_byte(T::mk(o.d[0]), o.from)
            }
            Ok(())
        }
    };
    r.is_ok()
}
