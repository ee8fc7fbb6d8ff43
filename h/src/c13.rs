//! C13: payload edits that do not fit fail cleanly.
use crate::edit::*;
use crate::spec::*;
use crate::src::Src;
use crate::text::*;
use crate::val::any_buf;
use crate::{cov, post, pre};
use midi2::prelude::*;

macro_rules! fixed_ump {
    ($s:ident, $t:ident :: $u:ident, $b:ty, $k:expr, $carry:expr, $sid:expr, [$($n:literal)*]) => {{
        let pick = $s.upto([$($n),*].len() as usize - 1);
        let mut j = 0usize;
        $( {
            if pick == j {
                // storage larger than its window: what lies beyond must not be touched
                let mut st: [u32; $n + 3] = any_buf($s);
                let old = st;
                {
                    let mut m = midi2::$t::$u::<&mut [u32]>::try_new_with_buffer(&mut st[..$n]).ok().unwrap();
                    let g = $s.bits(4) as u32;
                    m.set_group(u4::new(g as u8));
                    let id = $s.bits(8) as u32;
                    $sid(&mut m, id as u8);
                    let mut x = Model::new();
                    let k = 1 + $s.upto(3);
                    for _ in 0..k {
                        let o = crate::sysexops::op($s, x.n, <$b as By>::BITS, 230);
                        let mut y = x.clone();
                        crate::sysexops::apply(&mut y, &o);
                        let fits = $k.words(y.n) <= $n;
                        let ok = crate::sysexops::try_edit::<$b, _, _>(&mut m, x.n, &o);
                        post!(ok == fits, "an edit succeeds exactly when the result fits");
                        let carry = ($carry, (g << 24 | id << 8) & $carry);
                        if ok {
                            x = y;
                            post!($k.compact(m.data(), x.get(), carry), "well formed after a successful edit");
                            post!(reads(m.payload(), x.get()), "payload after a successful edit");
                        } else {
                            cov!($s, true, "overflow");
                            post!($k.accept(m.data()).is_some() && m.group() == u4::new(g as u8), "valid message of the same group after overflow");
                            post!((m.data()[0] ^ carry.1) & carry.0 == 0, "group and stream id after overflow");
                            x.n = $k.payload(m.data(), m.data().len() / $k.stride, &mut x.a);
                            post!(reads(m.payload(), x.get()), "payload readable after overflow");
                        }
                    }
                }
                post!(st[$n..] == old[$n..], "storage beyond the capacity untouched");
            }
            j += 1;
        } )*
        let _ = j;
    }};
}

/// Texts and names in a window of `n` words with more storage behind it.
macro_rules! fixed_text {
    ($s:ident, $t:ty, $k:expr, $cap:expr, $try:ident, $read:ident, |$m:ident, $g:ident| $init:expr, $carry:expr) => {{
        let k: Kind = $k;
        let n = 4 + $s.upto(24);
        let mut st: [u32; 32] = any_buf($s);
        let old = st;
        {
            let mut $m = <$t>::try_new_with_buffer(&mut st[..n]).ok().unwrap();
            let $g = $s.u32();
            $init;
            let carry: (u32, u32) = $carry;
            let c = 1 + $s.upto(2);
            for _ in 0..c {
                let l = length($s, $cap, 8);
                let x: Text<112> = text($s, l);
                let fits = k.words(l) <= n;
                let ok = $m.$try(x.str()).is_ok();
                post!(ok == fits, "an edit succeeds exactly when the result fits");
                if ok {
                    post!(k.compact($m.data(), x.bytes(), carry), "well formed after a successful edit");
                    post!(crate::c13::reads_text($m.$read(), x.bytes()), "text after a successful edit");
                } else {
                    cov!($s, true, "overflow");
                    post!(k.accept($m.data()) == Some($m.data().len() / 4), "valid message of the same kind after overflow");
                    let mut i = 0;
                    while i < $m.data().len() {
                        post!($m.data()[i] & carry.0 == carry.1, "same group and other header fields after overflow");
                        i += 4;
                    }
                }
            }
        }
        post!(st[n..] == old[n..], "storage beyond the capacity untouched");
    }};
}
pub fn reads_text(it: impl Iterator<Item = u8>, t: &[u8]) -> bool {
    let mut it = it;
    let mut i = 0;
    while i < t.len() {
        match it.next() {
            Some(v) if v == t[i] => {}
            _ => return false,
        }
        i += 1;
    }
    it.next().is_none()
}
macro_rules! c13_text {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        fn all_texts<S: Src>(s: &mut S) {
            let pick = s.upto(17);
            let mut at = 0;
            $( {
                if at == pick {
                    fixed_text!(s, $($p)::+::<&mut [u32]>, flex($bank, $st), 12, try_set_text, text_bytes, |m, g| {
                        m.set_group(u4::new(g as u8 & 15));
                        m.set_optional_channel(if g & 0x100 == 0 { None } else { Some(u4::new((g >> 4) as u8 & 15)) });
                    }, (0x0F3F_0000, (g & 15) << 24 | if g & 0x100 == 0 { 0x10_0000 } else { (g & 0xF0) << 12 }));
                }
                at += 1;
            } )*
        }
    };
}
crate::for_each_text!(c13_text);
crate::harnesses! {}
crate::natives! {
    big_sysex7 = |s| { crate::big::c13_s7(s) }
    big_sysex8 = |s| { crate::big::c13_s8(s) }
    big_bytes = |s| { crate::big::c13_bytes(s) }
    big_texts = |s| { crate::big::c14(s) }
    big_names = |s| { crate::big::c15(s) }
    s7 = |s| { fixed_ump!(s, sysex7::Sysex7, u7, SYSEX7, 0x0F00_0000, |_m: &mut midi2::sysex7::Sysex7<&mut [u32]>, _i: u8| {}, [2 3 4 5 6 7 8 10 14]) }
    s8 = |s| { fixed_ump!(s, sysex8::Sysex8, u8, SYSEX8, 0x0F00_FF00, |m: &mut midi2::sysex8::Sysex8<&mut [u32]>, i: u8| m.set_stream_id(i), [4 5 6 8 11 12 16 20]) }
    s7_array = |s| {
        let mut m = midi2::sysex7::Sysex7::<[u32; 8]>::new();
        let mut x = Model::new();
        let k = 1 + s.upto(4);
        for _ in 0..k {
            let o = crate::sysexops::op(s, x.n, 7, 230);
            let mut y = x.clone();
            crate::sysexops::apply(&mut y, &o);
            let ok = crate::sysexops::try_edit::<u7, _, _>(&mut m, x.n, &o);
            post!(ok == (y.n <= 24), "fits");
            if ok {
                x = y;
                post!(SYSEX7.compact(m.data(), x.get(), (0x0F00_0000, 0)), "well formed");
            } else {
                x.n = SYSEX7.payload(m.data(), m.data().len() / 2, &mut x.a);
            }
            post!(reads(m.payload(), x.get()), "payload");
        }
        cov!(s, x.n > 12, "long");
    }
    texts = |s| { all_texts(s) }
    names = |s| {
        match s.upto(2) {
            0 => fixed_text!(s, midi2::ump_stream::EndpointName::<&mut [u32]>, stream(3), 14, try_set_name, name_bytes, |m, g| {}, (0, g & 0)),
            1 => fixed_text!(s, midi2::ump_stream::ProductInstanceId::<&mut [u32]>, stream(4), 14, try_set_name, name_bytes, |m, g| {}, (0, g & 0)),
            _ => fixed_text!(s, midi2::ump_stream::FunctionBlockName::<&mut [u32]>, FBNAME, 13, try_set_name, name_bytes,
                |m, g| m.set_function_block(g as u8), (0xFF00, (g & 0xFF) << 8)),
        }
    }
    bytes = |s| {
        const MAX: usize = 26;
        let n = 2 + s.upto(MAX - 2);
        let mut st: [u8; MAX + 3] = any_buf(s);
        let old = st;
        {
            let mut m = midi2::sysex7::Sysex7::<&mut [u8]>::try_new_with_buffer(&mut st[..n]).ok().unwrap();
            let mut x = Model::new();
            let k = 1 + s.upto(4);
            for _ in 0..k {
                let o = crate::sysexops::op(s, x.n, 7, 230);
                let mut y = x.clone();
                crate::sysexops::apply(&mut y, &o);
                let ok = crate::sysexops::try_edit::<u7, _, _>(&mut m, x.n, &o);
                post!(ok == (y.n + 2 <= n), "an edit succeeds exactly when the result fits");
                if ok {
                    x = y;
                    post!(framed_bytes(m.data(), x.get()), "framing after a successful edit");
                } else {
                    cov!(s, true, "overflow");
                    post!(accept_bytes(m.data()) == Some(m.data().len()), "valid message after overflow");
                    x.n = m.data().len() - 2;
                    let d = m.data();
                    for i in 0..x.n {
                        x.a[i] = d[i + 1];
                    }
                }
                post!(reads(m.payload(), x.get()), "payload");
            }
        }
        post!(st[n..] == old[n..], "storage beyond the capacity untouched");
    }
}
