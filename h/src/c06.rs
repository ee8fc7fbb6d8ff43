//! C06: aggregate parsing agrees with the individual message parsers.
use crate::fam::*;
use crate::spec::*;
use crate::src::Src;
use crate::val::*;
use crate::{cov, post, pre};
use midi2::prelude::*;
use midi2::{Channeled, Data, Grouped, Packets};

/// One aggregate against all its members.
macro_rules! family {
    ($s:ident, $md:ident, $U:tt, $b:expr, $M:expr, [$($t:ident)*]) => {{
        type F<'a> = $crate::fam!($md, &'a [$U]);
        let b: &[$U] = $b;
        let a = F::try_from(b);
        // what the accepting member says: which one, extent, group, channel
        let mut hits = 0usize;
        let mut which = usize::MAX;
        let mut len = 0usize;
        let mut group = 0u8;
        let mut channel = 0u8;
        let mut at = 0usize;
        $( {
            if let Ok(y) = midi2::$md::$t::<&[$U]>::try_from(b) {
                hits += 1;
                which = at;
                len = y.data().len();
                $crate::if_group!($md, $U, { group = y.group().into(); });
                $crate::if_channel!($md, $U, { channel = y.channel().into(); });
            }
            at += 1;
        } )*
        let some = hits > 0;
        post!(hits <= 1, "at most one member accepts a slice");
        post!(some == a.is_ok(), "aggregate accepts exactly what a member accepts");
        if let Ok(a) = &a {
            let mut at = 0usize;
            let mut is = usize::MAX - 1;
            $( {
                if matches!(a, F::$t(_)) { is = at; }
                at += 1;
            } )*
            post!(is == which, "aggregate yields the member that accepts the slice");
            post!(same(Data::data(a), &b[..len]), "same data");
            $crate::if_group!($md, $U, { post!(u8::from(a.group()) == group, "same group"); });
            $crate::if_channel!($md, $U, { post!(u8::from(a.channel()) == channel, "same channel"); });
            #[cfg(not(kani))]
            $crate::if_ump!($U, { post!(a.packets().len() * $M == len || len == 1, "packets of the aggregate"); });
        }
        if b.len() >= $M {
            cov!($s, some, "accepted");
            cov!($s, !some, "rejected");
        }
    }};
}
/// Some members of one aggregate: each accepts exactly what the aggregate yields as that member.
macro_rules! some_of {
    ($s:ident, $md:ident, $U:tt, $b:expr, [$($t:ident)*]) => {{
        type F<'a> = $crate::fam!($md, &'a [$U]);
        let b: &[$U] = $b;
        let a = F::try_from(b);
        let mut any = false;
        $( {
            let y = midi2::$md::$t::<&[$U]>::try_from(b);
            let is = matches!(a, Ok(F::$t(_)));
            post!(is == y.is_ok(), concat!(stringify!($t), ": the aggregate yields it exactly for the slices it accepts"));
            any |= is;
        } )*
        cov!($s, any, "accepted");
        cov!($s, !any, "rejected");
    }};
}
fn cv1_u<S: Src>(s: &mut S, b: &[u32]) {
    family!(s, channel_voice1, u32, b, 1, [ChannelPressure ControlChange KeyPressure NoteOff NoteOn PitchBend ProgramChange])
}
fn cv1_b<S: Src>(s: &mut S, b: &[u8]) {
    family!(s, channel_voice1, u8, b, 3, [ChannelPressure ControlChange KeyPressure NoteOff NoteOn PitchBend ProgramChange])
}
fn cv2_u<S: Src>(s: &mut S, b: &[u32]) {
    family!(s, channel_voice2, u32, b, 2, [AssignableController AssignablePerNoteController ChannelPitchBend ChannelPressure ControlChange
        KeyPressure NoteOff NoteOn PerNoteManagement PerNotePitchBend ProgramChange RegisteredController RegisteredPerNoteController
        RelativeAssignableController RelativeRegisteredController])
}
fn sc_u<S: Src>(s: &mut S, b: &[u32]) {
    family!(s, system_common, u32, b, 1, [ActiveSensing Continue Reset SongPositionPointer SongSelect Start Stop TimeCode TimingClock TuneRequest])
}
fn sc_b<S: Src>(s: &mut S, b: &[u8]) {
    family!(s, system_common, u8, b, 3, [ActiveSensing Continue Reset SongPositionPointer SongSelect Start Stop TimeCode TimingClock TuneRequest])
}
fn ut_u<S: Src>(s: &mut S, b: &[u32]) {
    family!(s, utility, u32, b, 1, [NoOp Clock Timestamp DeltaClockstamp DeltaClockstampTpq])
}
fn us_u<S: Src>(s: &mut S, b: &[u32]) {
    family!(s, ump_stream, u32, b, 4, [DeviceIdentity EndOfClip EndpointDiscovery EndpointInfo EndpointName FunctionBlockDiscovery
        FunctionBlockInfo FunctionBlockName ProductInstanceId StartOfClip StreamConfigurationNotification StreamConfigurationRequest])
}
fn fx_u<S: Src>(s: &mut S, b: &[u32]) {
    family!(s, flex_data, u32, b, 4, [SetChordName SetKeySignature SetMetronome SetTempo SetTimeSignature UnknownMetadataText ProjectName
        CompositionName MidiClipName CopyrightNotice ComposerName LyricistName ArrangerName PublisherName PrimaryPerformerName
        AccompanyingPerformerName RecordingDate RecordingLocation UnknownPerformanceText Lyrics LyricsLanguage Ruby RubyLanguage])
}
crate::harnesses! {
    cv1 (8) = |s| { let b: [u32; 2] = any_buf(s); let n = s.upto(2); cv1_u(s, &b[..n]) }
    cv1_bytes (8) = |s| { let b: [u8; 4] = any_buf(s); let n = s.upto(4); cv1_b(s, &b[..n]) }
    cv2 (8) = |s| { let b: [u32; 3] = any_buf(s); let n = s.upto(3); cv2_u(s, &b[..n]) }
    sc (8) = |s| { let b: [u32; 2] = any_buf(s); let n = s.upto(2); sc_u(s, &b[..n]) }
    sc_bytes (8) = |s| { let b: [u8; 4] = any_buf(s); let n = s.upto(4); sc_b(s, &b[..n]) }
    ut (8) = |s| { let b: [u32; 2] = any_buf(s); let n = s.upto(2); ut_u(s, &b[..n]) }
    us (8) = |s| { let b: [u32; 4] = any_buf(s); us_u(s, &b) }
    #[cfg(any(feature = "deep", not(kani)))] fx_setup (8) = |s| { let b: [u32; 4] = any_buf(s);
        some_of!(s, flex_data, u32, &b, [SetChordName SetKeySignature SetMetronome SetTempo SetTimeSignature]) }
    #[cfg(any(feature = "deep", not(kani)))] fx_meta1 (8) = |s| { let b: [u32; 4] = any_buf(s);
        some_of!(s, flex_data, u32, &b, [UnknownMetadataText ProjectName CompositionName MidiClipName CopyrightNotice ComposerName]) }
    #[cfg(any(feature = "deep", not(kani)))] fx_meta2 (8) = |s| { let b: [u32; 4] = any_buf(s);
        some_of!(s, flex_data, u32, &b, [LyricistName ArrangerName PublisherName PrimaryPerformerName AccompanyingPerformerName RecordingDate RecordingLocation]) }
    #[cfg(any(feature = "deep", not(kani)))] fx_perf (8) = |s| { let b: [u32; 4] = any_buf(s);
        some_of!(s, flex_data, u32, &b, [UnknownPerformanceText Lyrics LyricsLanguage Ruby RubyLanguage]) }
    top1 (8) = |s| { let b: [u32; 1] = any_buf(s); ump_some(s, &b) }
    #[cfg(any(feature = "deep", not(kani)))] top2 (8) = |s| { let b: [u32; 2] = any_buf(s); ump_some(s, &b) }
    top_bytes (8) = |s| { let b: [u8; 4] = any_buf(s); let n = s.upto(4); bytes_top(s, &b[..n]) }
}

macro_rules! top {
    ($s:ident, $a:ident, $top:ident, $b:ident, $ump:tt, $( $v:ident $f:ty ),*) => {{
        let mut hits = 0usize;
        let mut which = usize::MAX;
        let mut len = 0usize;
        let mut at = 0usize;
        $( {
            if let Ok(y) = <$f>::try_from($b) {
                hits += 1;
                which = at;
                len = Data::data(&y).len();
                #[cfg(not(kani))]
                if let Ok(a) = &$a {
                    $crate::if_ump!($ump, { post!(same_packets(Packets::packets(a), Packets::packets(&y)), concat!(stringify!($v), ": same packets")); });
                }
            }
            at += 1;
        } )*
        let some = hits > 0;
        post!(hits <= 1, "at most one member accepts a slice");
        if let Ok(a) = &$a {
            let mut at = 0usize;
            let mut is = usize::MAX - 1;
            $( {
                if matches!(a, midi2::$top::$v(_)) { is = at; }
                at += 1;
            } )*
            post!(is == which, "aggregate yields the member that accepts the slice");
            post!(same(Data::data(a), &$b[..len]), "same data");
        }
        cov!($s, some, "accepted");
        cov!($s, !some, "rejected");
        post!(some == $a.is_ok(), "aggregate accepts exactly what a member accepts");
    }};
}
/// Which member is yielded for a slice (the data is compared natively).
fn ump_some<S: Src>(s: &mut S, b: &[u32]) {
    let a = midi2::UmpMessage::<&[u32]>::try_from(b);
    let mut any = false;
    macro_rules! each {
        ($( $v:ident $f:ty ),*) => { $( {
            let is = matches!(a, Ok(midi2::UmpMessage::$v(_)));
            post!(is == <$f>::try_from(b).is_ok(), concat!(stringify!($v), ": the aggregate yields it exactly for the slices it accepts"));
            any |= is;
        } )* };
    }
    each!(FlexData midi2::flex_data::FlexData<&[u32]>, ChannelVoice1 midi2::channel_voice1::ChannelVoice1<&[u32]>,
        ChannelVoice2 midi2::channel_voice2::ChannelVoice2<&[u32]>, Sysex7 midi2::sysex7::Sysex7<&[u32]>,
        Sysex8 midi2::sysex8::Sysex8<&[u32]>, SystemCommon midi2::system_common::SystemCommon<&[u32]>,
        UmpStream midi2::ump_stream::UmpStream<&[u32]>, Utility midi2::utility::Utility<&[u32]>);
    cov!(s, any, "accepted");
    cov!(s, !any, "rejected");
}
fn ump_top<S: Src>(s: &mut S, b: &[u32]) {
    let a = midi2::UmpMessage::<&[u32]>::try_from(b);
    top!(s, a, UmpMessage, b, u32,
        FlexData midi2::flex_data::FlexData<&[u32]>, ChannelVoice1 midi2::channel_voice1::ChannelVoice1<&[u32]>,
        ChannelVoice2 midi2::channel_voice2::ChannelVoice2<&[u32]>, Sysex7 midi2::sysex7::Sysex7<&[u32]>,
        Sysex8 midi2::sysex8::Sysex8<&[u32]>, SystemCommon midi2::system_common::SystemCommon<&[u32]>,
        UmpStream midi2::ump_stream::UmpStream<&[u32]>, Utility midi2::utility::Utility<&[u32]>);
}
fn bytes_top<S: Src>(s: &mut S, b: &[u8]) {
    let a = midi2::BytesMessage::<&[u8]>::try_from(b);
    top!(s, a, BytesMessage, b, u8,
        ChannelVoice1 midi2::channel_voice1::ChannelVoice1<&[u8]>, Sysex7 midi2::sysex7::Sysex7<&[u8]>,
        SystemCommon midi2::system_common::SystemCommon<&[u8]>);
}
crate::natives! {
    long = |s| { crate::big::shapes(s) }
    long_byte = |s| { crate::big::bytes(s) }
    ump = |s| {
        let mut b = [0u32; 26];
        let n = crate::shapes::ump(s, &mut b);
        ump_top(s, &b[..n]);
    }
    bytes = |s| {
        let mut b = [0u8; 26];
        let n = crate::shapes::bytes(s, &mut b);
        bytes_top(s, &b[..n]);
    }
    members = |s| {
        let mut b = [0u32; 26];
        let ty = s.upto(15) as u32;
        let n = crate::shapes::of(s, &mut b, ty);
        let b = &b[..n];
        match ty {
            0 => ut_u(s, b),
            1 => sc_u(s, b),
            2 => cv1_u(s, b),
            4 => cv2_u(s, b),
            0xD => fx_u(s, b),
            _ => us_u(s, b),
        }
    }
    members_bytes = |s| {
        let mut b = [0u8; 8];
        let n = crate::shapes::bytes(s, &mut b);
        cv1_b(s, &b[..n]);
        sc_b(s, &b[..n]);
    }
}
