//! C08: moving a message to another buffer keeps it, or reports overflow exactly.
use crate::edit::Grow;
use crate::fam::*;
use crate::spec::*;
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::{Data, Packets};

fn copy<T: Copy>(d: &mut [T], s: &[T]) {
    let mut i = 0;
    while i < d.len() && i < s.len() {
        d[i] = s[i];
        i += 1;
    }
}
#[macro_export]
macro_rules! c08_gen {
    ($( { $n:ident, $($p:ident)::+, $U:tt, $M:expr, [$($h:expr),*], [$($ne:expr),*], [$($c:expr),*], [$($dc:expr),*],
        [ $( ($g:ident, $set:ident, $t:ty, [$($seg:expr),*]) ),* ] } )*) => {
        $crate::harnesses! { $(
            $n (8) = |s| {
                let mut buf: [$U; $M + 1] = any_buf(s);
                force(&mut buf, &[$($h),*]);
                pre!(s, header(&buf, &[$($h),*], &[$($ne),*]));
                let r = $($p)::+::<&[$U]>::try_from(&buf[..$M]);
                cov!(s, r.is_ok(), "accepted");
                if let Ok(b) = r {
                    let want = &buf[..$M];
                    let eq: Result<$($p)::+<[$U; $M]>, _> = b.clone().try_rebuffer_into();
                    post!(matches!(&eq, Ok(m) if same(m.data(), want)), concat!(stringify!($n), ": array of the exact size"));
                    let big: Result<$($p)::+<[$U; $M + 1]>, _> = b.clone().try_rebuffer_into();
                    post!(matches!(&big, Ok(m) if same(m.data(), want)), concat!(stringify!($n), ": larger array"));
                    let small: Result<$($p)::+<[$U; $M - 1]>, _> = b.clone().try_rebuffer_into();
                    post!(small.is_err(), concat!(stringify!($n), ": smaller array overflows"));
                    let grow: $($p)::+<Grow<$U, { $M + 1 }>> = b.clone().rebuffer_into();
                    post!(same(grow.data(), want), concat!(stringify!($n), ": growable storage"));
                    if let Ok(m) = eq {
                        let up: $($p)::+<[$U; $M + 2]> = m.array_rebuffer_into();
                        post!(same(up.data(), want), concat!(stringify!($n), ": array to array"));
                    }
                }
                // from storage with something after the message
                if let Ok(b) = $($p)::+::<&[$U]>::try_from(&buf[..]) {
                    let m: $($p)::+<[$U; $M]> = b.clone().array_rebuffer_into();
                    post!(same(m.data(), &buf[..$M]), concat!(stringify!($n), ": from longer storage to an array"));
                    let m: $($p)::+<Grow<$U, { $M + 1 }>> = b.rebuffer_into();
                    post!(same(m.data(), &buf[..$M]), concat!(stringify!($n), ": from longer storage to growable storage"));
                }
                // from a mutable slice
                macro_rules! window {
                    ($size:expr, $ok:expr) => {{
                        let mut d = [0 as $U; $M];
                        let mut w: [$U; $M] = [0; $M];
                        copy(&mut w, &buf[..$M]);
                        if let Ok(m) = $($p)::+::<&mut [$U]>::try_new_with_buffer(&mut w[..]) {
                            copy(&mut d, m.data());
                            let x: Result<$($p)::+<[$U; $size]>, _> = m.try_rebuffer_into();
                            if $ok {
                                post!(matches!(&x, Ok(x) if same(x.data(), &d)), concat!(stringify!($n), ": from a mutable slice to an array"));
                            } else {
                                post!(x.is_err(), concat!(stringify!($n), ": from a mutable slice to a smaller array overflows"));
                            }
                        }
                    }};
                }
                window!($M - 1, false);
                window!($M, true);
                window!($M + 1, true);
            }
        )* }
    };
}
crate::for_each_fixed!(c08_gen);

macro_rules! multi {
    ($s:ident, $k:expr, $t:ident, $($p:ident)::+) => {{
        let k = $k;
        let mut b: [u32; 16] = any_buf($s);
        let p = 1 + $s.upto(16 / k.stride - 1);
        k.make($s, &mut b, p);
        let e = p * k.stride;
        let r = $($p)::+::<&[u32]>::try_from(&b[..e]);
        post!(r.is_ok(), "accepted");
        let r = r.ok().unwrap();
        macro_rules! into {
            ($n:expr) => {{
                let x: Result<$($p)::+<[u32; $n]>, _> = r.clone().try_rebuffer_into();
                post!(x.is_ok() == (e <= $n), concat!(stringify!($t), ": overflow exactly when too small"));
                if let Ok(x) = x {
                    post!(same(x.data(), &b[..e]), concat!(stringify!($t), ": same data"));
                    post!(same_packets(x.packets(), r.packets()), concat!(stringify!($t), ": same packets"));
                }
            }};
        }
        into!(0);
        into!(1);
        into!(2);
        into!(3);
        into!(4);
        into!(6);
        into!(7);
        into!(8);
        into!(11);
        into!(12);
        into!(16);
        into!(17);
        let g: $($p)::+<Grow<u32, 20>> = r.clone().rebuffer_into();
        post!(same(g.data(), &b[..e]), concat!(stringify!($t), ": growable storage"));
        cov!($s, p > 1, "several packets");
    }};
}
macro_rules! c08_text {
    ($( { $n:ident, $($p:ident)::+, $bank:expr, $st:expr } )*) => {
        fn texts<S: Src>(s: &mut S) {
            let pick = s.upto(17);
            let mut at = 0;
            $( { if at == pick { multi!(s, flex($bank, $st), $n, $($p)::+) } at += 1; } )*
        }
    };
}
crate::for_each_text!(c08_text);
/// An aggregate and each of its members.
macro_rules! agg {
    ($s:ident, $md:ident, $U:tt, $b:expr, [$($t:ident)*]) => {{
        let b: &[$U] = $b;
        type F<X> = $crate::fam!($md, X);
        if let Ok(m) = F::<&[$U]>::try_from(b) {
            let d = Data::data(&m);
            if d.len() == b.len() {
                macro_rules! into {
                    ($n:expr) => {{
                        let x: Result<F<[$U; $n]>, _> = m.clone().try_rebuffer_into();
                        post!(x.is_ok() == (d.len() <= $n), concat!(stringify!($md), ": overflow exactly when too small"));
                        if let Ok(x) = x {
                            post!(same(Data::data(&x), d) , concat!(stringify!($md), ": same data"));
                            post!($( matches!((&x, &m), (F::$t(_), F::$t(_))) || )* false, concat!(stringify!($md), ": same member"));
                        }
                    }};
                }
                into!(0);
                into!(1);
                into!(2);
                into!(3);
                into!(4);
                into!(5);
                into!(8);
                $( if let F::$t(y) = &m {
                    let z: F<&[$U]> = y.clone().into();
                    post!(matches!(z, F::$t(_)) && same(Data::data(&z), d), concat!(stringify!($t), ": into its aggregate"));
                } )*
            }
            let g: F<Grow<$U, 40>> = m.clone().rebuffer_into();
            post!(same(Data::data(&g), d), concat!(stringify!($md), ": growable storage"));
            $crate::if_array!($md, {
                let a: F<[$U; 4]> = m.clone().array_rebuffer_into();
                post!(same(Data::data(&a), d), concat!(stringify!($md), ": array"));
                post!($( matches!((&a, &m), (F::$t(_), F::$t(_))) || )* false, concat!(stringify!($md), ": same member in an array"));
            });
            cov!($s, true, "aggregate accepted");
        }
    }};
}
/// From a mutable slice of any size to arrays.
macro_rules! windows {
    ($s:ident, $U:tt, $what:expr, $($p:ident)::+, |$m:ident| $set:expr) => {{
        let mut w: [$U; 24] = any_buf($s);
        let n = $s.upto(24);
        macro_rules! into {
            ($size:expr) => {{
                let mut v = w;
                if let Ok(mut $m) = $($p)::+::<&mut [$U]>::try_new_with_buffer(&mut v[..n]) {
                    let _ = $set;
                    let mut d = [0 as $U; 24];
                    let l = $m.data().len();
                    copy(&mut d, $m.data());
                    let x: Result<$($p)::+<[$U; $size]>, _> = $m.try_rebuffer_into();
                    post!(n > $size || x.is_ok(), concat!($what, ": storage that fits is moved"));
                    post!(l <= $size || x.is_err(), concat!($what, ": a message that does not fit overflows"));
                    if let Ok(x) = x { post!(same(x.data(), &d[..l]), concat!($what, ": same data from a mutable slice")); }
                    cov!($s, l <= $size, "fits");
                }
            }};
        }
        into!(1);
        into!(2);
        into!(3);
        into!(4);
        into!(5);
        into!(8);
        into!(12);
        into!(16);
        into!(20);
        into!(24);
    }};
}
crate::natives! {
    windows = |s| {
        use midi2::ux::*;
        let l = s.upto(40);
        let p: [u8; 40] = { let mut p = [0; 40]; for x in p.iter_mut() { *x = s.u8() & 0x7F | 1; } p };
        let t = core::str::from_utf8(&p[..l]).unwrap();
        windows!(s, u32, "sysex7", midi2::sysex7::Sysex7, |m| m.try_set_payload(p[..l].iter().map(|v| u7::new(*v))));
        windows!(s, u8, "sysex7 bytes", midi2::sysex7::Sysex7, |m| m.try_set_payload(p[..l].iter().map(|v| u7::new(*v))));
        windows!(s, u32, "sysex8", midi2::sysex8::Sysex8, |m| m.try_set_payload(p[..l].iter().copied()));
        windows!(s, u32, "lyrics", midi2::flex_data::Lyrics, |m| m.try_set_text(t));
        windows!(s, u32, "endpoint name", midi2::ump_stream::EndpointName, |m| m.try_set_name(t));
        windows!(s, u32, "function block name", midi2::ump_stream::FunctionBlockName, |m| m.try_set_name(t));
    }
    big = |s| { crate::big::c08(s) }
    sysex7 = |s| { multi!(s, SYSEX7, sysex7, midi2::sysex7::Sysex7) }
    sysex8 = |s| { multi!(s, SYSEX8, sysex8, midi2::sysex8::Sysex8) }
    endpoint_name = |s| { multi!(s, stream(3), endpoint_name, midi2::ump_stream::EndpointName) }
    product_instance_id = |s| { multi!(s, stream(4), product_instance_id, midi2::ump_stream::ProductInstanceId) }
    function_block_name = |s| { multi!(s, FBNAME, function_block_name, midi2::ump_stream::FunctionBlockName) }
    text = |s| { texts(s) }
    bytes = |s| {
        let n = s.upto(14);
        let mut b = [0u8; 16];
        b[0] = 0xF0;
        for i in 0..n { b[1 + i] = s.bits(7) as u8; }
        b[n + 1] = 0xF7;
        let e = n + 2;
        let r = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..e]).ok().unwrap();
        macro_rules! into {
            ($n:expr) => {{
                let x: Result<midi2::sysex7::Sysex7<[u8; $n]>, _> = r.clone().try_rebuffer_into();
                post!(x.is_ok() == (e <= $n), "overflow exactly when too small");
                if let Ok(x) = x { post!(same(x.data(), &b[..e]), "same data"); }
            }};
        }
        into!(0);
        into!(1);
        into!(2);
        into!(3);
        into!(5);
        into!(8);
        into!(13);
        into!(15);
        into!(16);
        let g: midi2::sysex7::Sysex7<Grow<u8, 20>> = r.clone().rebuffer_into();
        post!(same(g.data(), &b[..e]), "growable storage");
        cov!(s, n > 3, "some payload");
    }
    aggregates = |s| {
        let mut b = [0u32; 26];
        let ty = s.upto(15) as u32;
        let n = crate::shapes::of(s, &mut b, ty);
        let b = &b[..n];
        match ty {
            0 => agg!(s, utility, u32, b, [NoOp Clock Timestamp DeltaClockstamp DeltaClockstampTpq]),
            1 => agg!(s, system_common, u32, b, [ActiveSensing Continue Reset SongPositionPointer SongSelect Start Stop TimeCode TimingClock TuneRequest]),
            2 => agg!(s, channel_voice1, u32, b, [ChannelPressure ControlChange KeyPressure NoteOff NoteOn PitchBend ProgramChange]),
            4 => agg!(s, channel_voice2, u32, b, [AssignableController AssignablePerNoteController ChannelPitchBend ChannelPressure ControlChange
                    KeyPressure NoteOff NoteOn PerNoteManagement PerNotePitchBend ProgramChange RegisteredController RegisteredPerNoteController
                    RelativeAssignableController RelativeRegisteredController]),
            0xD => agg!(s, flex_data, u32, b, [SetChordName SetKeySignature SetMetronome SetTempo SetTimeSignature UnknownMetadataText ProjectName
                    CompositionName MidiClipName CopyrightNotice ComposerName LyricistName ArrangerName PublisherName PrimaryPerformerName
                    AccompanyingPerformerName RecordingDate RecordingLocation UnknownPerformanceText Lyrics LyricsLanguage Ruby RubyLanguage]),
            _ => agg!(s, ump_stream, u32, b, [DeviceIdentity EndOfClip EndpointDiscovery EndpointInfo EndpointName FunctionBlockDiscovery
                    FunctionBlockInfo FunctionBlockName ProductInstanceId StartOfClip StreamConfigurationNotification StreamConfigurationRequest]),
        }
        if let Ok(m) = midi2::UmpMessage::<&[u32]>::try_from(b) {
            let d = Data::data(&m);
            let g: midi2::UmpMessage<Grow<u32, 40>> = m.clone().rebuffer_into();
            post!(same(Data::data(&g), d) && same_packets(Packets::packets(&g), Packets::packets(&m)), "UmpMessage in growable storage");
            if d.len() == b.len() {
                let x: Result<midi2::UmpMessage<[u32; 4]>, _> = m.clone().try_rebuffer_into();
                post!(x.is_ok() == (d.len() <= 4), "UmpMessage: overflow exactly when too small");
                if let Ok(x) = x { post!(same(Data::data(&x), d), "UmpMessage: same data"); }
            }
        }
    }
    aggregates_bytes = |s| {
        let mut b = [0u8; 26];
        let n = crate::shapes::bytes(s, &mut b);
        let b = &b[..n];
        agg!(s, channel_voice1, u8, b, [ChannelPressure ControlChange KeyPressure NoteOff NoteOn PitchBend ProgramChange]);
        agg!(s, system_common, u8, b, [ActiveSensing Continue Reset SongPositionPointer SongSelect Start Stop TimeCode TimingClock TuneRequest]);
        if let Ok(m) = midi2::BytesMessage::<&[u8]>::try_from(b) {
            let d = Data::data(&m);
            let g: midi2::BytesMessage<Grow<u8, 40>> = m.clone().rebuffer_into();
            post!(same(Data::data(&g), d), "BytesMessage in growable storage");
            if d.len() == b.len() {
                let x: Result<midi2::BytesMessage<[u8; 4]>, _> = m.clone().try_rebuffer_into();
                post!(x.is_ok() == (d.len() <= 4), "BytesMessage: overflow exactly when too small");
                if let Ok(x) = x { post!(same(Data::data(&x), d), "BytesMessage: same data"); }
            }
        }
    }
}
