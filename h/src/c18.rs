//! C18: typed field values and their wire codes correspond one to one.
use crate::edit::Grow;
use crate::spec::*;
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::channel_voice2::Controller;
use midi2::prelude::*;

#[macro_export]
macro_rules! c18_gen {
    ($( { $n:ident, $($p:ident)::+, $U:ty, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], $dc:tt,
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (9) = |s| {
                const TYPED: usize = 0 $( + <$t as Val>::TYPED as usize )*;
                let mut seen = TYPED == 0;
                if TYPED > 0 {
                    // two messages, read from, and two more, written to
                    let mut a: [$U; $M] = any_buf(s);
                    let mut b: [$U; $M] = any_buf(s);
                    let mut c: [$U; $M] = any_buf(s);
                    force(&mut a, &[$($h),*]);
                    force(&mut b, &[$($h),*]);
                    force(&mut c, &[$($h),*]);
                    let (ra, rb, rc) = ($($p)::+::<&[$U]>::try_from(&a[..]), $($p)::+::<&[$U]>::try_from(&b[..]), $($p)::+::<&[$U]>::try_from(&c[..]));
                    pre!(s, ra.is_ok() && rb.is_ok() && rc.is_ok());
                    let (ra, rb, rc) = (ra.ok().unwrap(), rb.ok().unwrap(), rc.ok().unwrap());
                    seen = true;
                    let x: Result<$($p)::+<[$U; $M + 1]>, _> = rc.clone().try_rebuffer_into();
                    let y: Result<$($p)::+<[$U; $M + 1]>, _> = rc.try_rebuffer_into();
                    pre!(s, x.is_ok() && y.is_ok());
                    let (mut x, mut y) = (x.ok().unwrap(), y.ok().unwrap());
                    $( if <$t as Val>::TYPED {
                        let (v, w) = (ra.$g(), rb.$g());
                        x.$set(v);
                        y.$set(w);
                        post!(x.$g() == v, concat!(stringify!($n), ".", stringify!($g), ": a value read, then written, reads the same"));
                        post!((v == w) == same(x.data(), y.data()), concat!(stringify!($n), ".", stringify!($g), ": distinct values have distinct codes"));
                        post!(extract(x.data(), &[$($seg),*]) & v.writes() == v.code() & v.writes(), concat!(stringify!($n), ".", stringify!($g), ": the code of the value"));
                        y.$set(v);
                        post!(y.$g() == v, concat!(stringify!($n), ".", stringify!($g), ": a value written over another reads the same"));
                    } )*
                    post!($($p)::+::<&[$U]>::try_from(x.data()).is_ok(), concat!(stringify!($n), ": still valid"));
                }
                cov!(s, seen, "accepted");
            }
        )* }
    };
}
crate::for_each_fixed!(c18_gen);

/// Controllers under every name they have.
fn controller<S: Src>(s: &mut S) -> Controller {
    use Controller::*;
    let d = s.u32();
    match s.upto(33) {
        0 => Modulation(d),
        1 => Breath(d),
        2 => Pitch7_25(midi2::num::Fixed7_25::from_bits(d)),
        3 => Volume(d),
        4 => Balance(d),
        5 => Pan(d),
        6 => Expression(d),
        7 => SoundVariation(d),
        8 => Timbre(d),
        9 => ReleaseTime(d),
        10 => AttackTime(d),
        11 => Brightness(d),
        12 => DecayTime(d),
        13 => VebratoRate(d),
        14 => VebratoDepth(d),
        15 => VebratoDelay(d),
        16 => Undefined(d),
        17 => ReverbSendLevel(d),
        18 => ChorusSendLevel(d),
        i if i < 29 => SoundController { index: i as u8 - 18, data: d },
        i => EffectDepth { index: i as u8 - 28, data: d },
    }
}
macro_rules! c18_text {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        pub mod text {
            use super::*;
            crate::harnesses! { $(
                $n (6) = |s| {
                    let k = flex($bank, $st);
                    let mut a: [u32; 4] = any_buf(s);
                    k.make(s, &mut a, 1);
                    let r = $($p)::+::<&[u32]>::try_from(&a[..]);
                    cov!(s, r.is_ok(), "accepted");
                    if let Ok(r) = r {
                        let v = r.optional_channel();
                        // address 0: the channel; otherwise none
                        let want = <Option<u4> as Val>::from_code((a[0] >> 16 & 0x3F) as u64);
                        post!(Some(v) == want, concat!(stringify!($n), ": optional channel read"));
                        let mut b: [u32; 4] = any_buf(s);
                        k.make(s, &mut b, 1);
                        let w = $($p)::+::<&[u32]>::try_from(&b[..]);
                        if let Ok(w) = w {
                            let mut m: $($p)::+<Grow<u32, 4>> = w.clone().rebuffer_into();
                            m.set_optional_channel(v);
                            post!(m.optional_channel() == v, concat!(stringify!($n), ": optional channel read, then written, reads the same"));
                            let mut o: $($p)::+<Grow<u32, 4>> = w.rebuffer_into();
                            let x = if s.bool() { Some(u4::new(s.bits(4) as u8)) } else { None };
                            o.set_optional_channel(x);
                            post!(o.optional_channel() == x, concat!(stringify!($n), ": optional channel written reads the same"));
                            post!((x == v) == same(m.data(), o.data()), concat!(stringify!($n), ": distinct optional channels have distinct codes"));
                        }
                    }
                }
            )* }
        }
    };
}
crate::for_each_text_all!(c18_text);
pub mod more {
    use super::*;
    crate::harnesses! {
        controllers (4) = |s| {
            let mut m = midi2::channel_voice2::RegisteredPerNoteController::<[u32; 3]>::new();
            let (v, w) = (controller(s), controller(s));
            m.set_controller(v);
            post!(m.controller().code() == v.code(), "a controller has its code under each of its names");
            post!(midi2::channel_voice2::RegisteredPerNoteController::<&[u32]>::try_from(m.data()).is_ok(), "still valid");
            let r = m.controller();
            m.set_controller(w);
            post!((m.controller() == r) == (v.code() == w.code()), "distinct controllers have distinct codes");
            cov!(s, true, "written");
        }
        flats (4) = |s| {
            let mut m = midi2::flex_data::SetKeySignature::<[u32; 5]>::new();
            let v = if s.bool() { midi2::flex_data::SetKeySignatureSharpsFlats::Flats(u3::new(s.bits(3) as u8)) }
                else { midi2::flex_data::SetKeySignatureSharpsFlats::Sharps(u3::new(s.bits(3) as u8)) };
            m.set_sharps_flats(v);
            let r = m.sharps_flats();
            // no flats and no sharps are the same signature
            post!(r == v || (v == midi2::flex_data::SetKeySignatureSharpsFlats::Flats(u3::new(0)) && r == midi2::flex_data::SetKeySignatureSharpsFlats::Sharps(u3::new(0))),
                "any number of sharps or flats can be written");
            post!(midi2::flex_data::SetKeySignature::<&[u32]>::try_from(m.data()).is_ok(), "still valid");
            cov!(s, true, "written");
        }
    }
}
crate::natives! {}
