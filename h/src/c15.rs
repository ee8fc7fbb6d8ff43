//! C15: UMP stream names round-trip and keep packet headers consistent.
use crate::c15::super_c14::*;
use crate::edit::*;
use crate::spec::*;
use crate::src::Src;
use crate::text::*;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;
pub mod super_c14 {
    pub fn reads_text(it: impl Iterator<Item = u8>, t: &[u8]) -> bool {
        let mut it = it;
        let mut i = 0;
        while i < t.len() {
            match it.next() {
                Some(v) if v == t[i] => {}
                _ => return false,
            }
            i += 1;
        }
        it.next().is_none() && it.next().is_none()
    }
}
macro_rules! holds {
    ($m:expr, $k:expr, $t:expr, $carry:expr, $what:expr) => {{
        post!($k.compact($m.data(), $t, $carry), concat!($what, ": packets, forms and headers"));
        post!(reads_text($m.name_bytes(), $t), concat!($what, ": name reads back"));
        #[cfg(feature = "std")]
        post!($m.name().as_bytes() == $t, concat!($what, ": name string reads back"));
    }};
}
// Setting a name on a new message over any storage: one harness per length.
macro_rules! set {
    ($s:ident, $k:expr, $t:ident, $len:expr, $w:expr, $carry:expr) => {{
        const K: Kind = $k;
        let mut b: [u32; $w] = any_buf($s);
        let t: Text<$len> = text($s, $len);
        let c;
        {
            let mut m = midi2::ump_stream::$t::try_new_with_buffer(&mut b[..]).ok().unwrap();
            c = $carry(&mut m, $s.u8());
            post!(m.try_set_name(t.str()).is_ok(), concat!(stringify!($t), ": it fits"));
        }
        post!(K.compact(&b[..K.words($len)], t.bytes(), c), concat!(stringify!($t), ": packets, forms, headers and text after set_name"));
        cov!($s, true, "reached");
    }};
}
// Changing the function block after the name, on any accepted message of $p packets.
macro_rules! read {
    ($s:ident, $t:ident, $first:expr) => {{
        let b: [u32; 4] = any_buf($s);
        if let Ok(m) = midi2::ump_stream::$t::<&[u32]>::try_from(&b[..]) {
            let mut it = m.name_bytes();
            let mut j = $first;
            while j < 16 {
                let v = (b[j / 4] >> (24 - 8 * (j % 4))) as u8;
                if v != 0 {
                    post!(it.next() == Some(v), "the bytes of the name in order");
                }
                j += 1;
            }
            post!(it.next().is_none() && it.next().is_none(), "ends, and stays ended");
            cov!($s, true, "accepted");
        }
    }};
}
macro_rules! long {
    ($s:ident, $k:expr, $t:ident, $carry:expr) => {{
        const K: Kind = $k;
        type M = midi2::ump_stream::$t<Grow<u32, 60>>;
        let mut m: M;
        let mut x: Text<110> = Text { a: [0; 110], n: 0 };
        let mut c;
        let mut exact = true;
        if $s.bool() {
            m = M::new();
            c = $carry(&mut m, 0);
        } else {
            let n = length($s, K.cap, 5);
            x = text($s, n);
            let p = K.words(n) / 4 + $s.upto(1);
            let mut b: [u32; 28] = any_buf($s);
            K.make($s, &mut b, p);
            for i in 0..p {
                for j in 0..K.cap {
                    let at = K.first + j;
                    let (w, o) = (4 * i + at / 4, 24 - 8 * (at % 4));
                    let v = if K.cap * i + j < n { x.a[K.cap * i + j] } else { 0 } as u32;
                    b[w] = b[w] & !(0xFF << o) | v << o;
                }
            }
            if b[4 * p] >> 28 == 0xF { b[4 * p] ^= 0x1000_0000; }
            let e = 4 * p + $s.upto(3);
            let r = midi2::ump_stream::$t::<&[u32]>::try_from(&b[..e]);
            post!(r.is_ok(), concat!(stringify!($t), ": accepted"));
            m = r.ok().unwrap().rebuffer_into();
            c = (K.same, b[0] & K.same);
            exact = 4 * p == K.words(n);
        }
        for _ in 0..1 + $s.upto(4) {
            if $s.upto(2) == 0 {
                c = $carry(&mut m, $s.u8());
            } else {
                let n = length($s, K.cap, 7);
                x = text($s, n);
                m.set_name(x.str());
                exact = true;
            }
            if exact {
                holds!(m, K, x.bytes(), c, stringify!($t));
            } else {
                post!(K.accept(m.data()) == Some(m.data().len() / 4), concat!(stringify!($t), ": well formed"));
                post!(reads_text(m.name_bytes(), x.bytes()), concat!(stringify!($t), ": name kept"));
                let mut i = 0;
                while i < m.data().len() {
                    post!(m.data()[i] & c.0 == c.1, concat!(stringify!($t), ": the same header in every packet"));
                    i += 4;
                }
            }
            post!(midi2::ump_stream::$t::<&[u32]>::try_from(m.data()).is_ok(), concat!(stringify!($t), ": accepted again"));
        }
        cov!($s, x.n > 28, "long");
    }};
}
pub fn none<M>(_m: &mut M, _v: u8) -> (u32, u32) {
    (0, 0)
}
fn block<B: midi2::buffer::Ump + midi2::buffer::BufferMut>(m: &mut midi2::ump_stream::FunctionBlockName<B>, v: u8) -> (u32, u32) {
    m.set_function_block(v);
    post!(m.function_block() == v, "function block number reads back");
    (0xFF00, (v as u32) << 8)
}
crate::harnesses! {
    set_endpoint_name_0 (32) = |s| { set!(s, stream(3), EndpointName, 0, 8, none) }
    set_endpoint_name_1 (32) = |s| { set!(s, stream(3), EndpointName, 1, 8, none) }
    set_endpoint_name_14 (32) = |s| { set!(s, stream(3), EndpointName, 14, 8, none) }
    set_endpoint_name_15 (32) = |s| { set!(s, stream(3), EndpointName, 15, 12, none) }
    set_endpoint_name_29 (32) = |s| { set!(s, stream(3), EndpointName, 29, 12, none) }
    set_product_instance_id_0 (32) = |s| { set!(s, stream(4), ProductInstanceId, 0, 8, none) }
    set_product_instance_id_1 (32) = |s| { set!(s, stream(4), ProductInstanceId, 1, 8, none) }
    set_product_instance_id_14 (32) = |s| { set!(s, stream(4), ProductInstanceId, 14, 8, none) }
    set_product_instance_id_15 (32) = |s| { set!(s, stream(4), ProductInstanceId, 15, 12, none) }
    set_product_instance_id_29 (32) = |s| { set!(s, stream(4), ProductInstanceId, 29, 12, none) }
    set_function_block_name_0 (32) = |s| { set!(s, FBNAME, FunctionBlockName, 0, 8, block) }
    set_function_block_name_1 (32) = |s| { set!(s, FBNAME, FunctionBlockName, 1, 8, block) }
    set_function_block_name_13 (32) = |s| { set!(s, FBNAME, FunctionBlockName, 13, 8, block) }
    set_function_block_name_14 (32) = |s| { set!(s, FBNAME, FunctionBlockName, 14, 12, block) }
    set_function_block_name_27 (32) = |s| { set!(s, FBNAME, FunctionBlockName, 27, 12, block) }
    #[cfg(any(feature = "deep", not(kani)))] read_endpoint_name (16) = |s| { read!(s, EndpointName, 2) }
    #[cfg(any(feature = "deep", not(kani)))] read_function_block_name (16) = |s| { read!(s, FunctionBlockName, 3) }
}
crate::natives! {
    big = |s| { crate::big::c15(s) }
    endpoint_names = |s| { long!(s, stream(3), EndpointName, none) }
    product_instance_ids = |s| { long!(s, stream(4), ProductInstanceId, none) }
    function_block_names = |s| { long!(s, FBNAME, FunctionBlockName, block) }
}
