//! C11: editing an 8-bit sysex payload or stream id acts like editing plain data.
use crate::edit::*;
use crate::spec::*;
use crate::src::Src;
use crate::val::any_buf;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::sysex8::Sysex8;

macro_rules! state {
    ($m:ident, $pl:expr, $g:expr, $id:expr, $what:expr) => {{
        post!(SYSEX8.compact($m.data(), $pl, (0x0F00_FF00, $g << 24 | $id << 8)), concat!($what, ": well formed, compact, padding zero, group and stream id in every packet"));
        post!(reads($m.payload(), $pl), concat!($what, ": payload reads back"));
        post!($m.payload_size() == $pl.len(), concat!($what, ": payload size"));
    }};
}
crate::harnesses! {}
crate::natives! {
    big = |s| { crate::big::c11(s) }
    seq = |s| {
        let mut x = Model::new();
        let mut g = s.bits(4) as u32;
        let mut id = s.bits(8) as u32;
        let mut plain = true;
        let mut m;
        if s.bool() {
            m = Sysex8::<Grow<u32, 400>>::new();
            m.set_group(u4::new(g as u8));
            m.set_stream_id(id as u8);
        } else {
            let n = 1 + s.upto(3);
            let mut b: [u32; 20] = any_buf(s);
            SYSEX8.make(s, &mut b, n);
            let e = if b[4 * n] >> 28 == 5 { 4 * n } else { 20 };
            g = b[0] >> 24 & 0xF;
            id = b[0] >> 8 & 0xFF;
            let p = Sysex8::<&[u32]>::try_from(&b[..e]);
            pre!(s, p.is_ok());
            m = p.ok().unwrap().rebuffer_into();
            x.n = SYSEX8.payload(&b, n, &mut x.a);
            plain = false;
        }
        let k = 1 + s.upto(3);
        for _ in 0..k {
            let o = crate::sysexops::op(s, x.n, 8, 280);
            crate::sysexops::edit::<u8, _, _>(&mut m, x.n, &o);
            crate::sysexops::apply(&mut x, &o);
            plain = plain || o.kind != 9;
            post!(reads(m.payload(), x.get()), "payload equals the edited byte sequence");
            post!(m.payload_size() == x.n, "payload size");
            if plain {
                state!(m, x.get(), g, id, "edit");
            } else {
                post!(SYSEX8.accept(m.data()) == Some(m.data().len() / 4), "still well formed");
            }
            post!(m.group() == u4::new(g as u8) && m.stream_id() as u32 == id, "group and stream id");
            post!(Sysex8::<&[u32]>::try_from(m.data()).is_ok(), "accepted again");
            match s.upto(5) {
                0 => {
                    g = s.bits(4) as u32;
                    m.set_group(u4::new(g as u8));
                }
                1 => {
                    id = s.bits(8) as u32;
                    m.set_stream_id(id as u8);
                }
                _ => {}
            }
            post!(reads(m.payload(), x.get()), "setting group or stream id keeps the payload");
            if plain {
                state!(m, x.get(), g, id, "set group or stream id");
            }
        }
        cov!(s, x.n > 13, "several packets");
    }
}
