/// The fixed-size messages: harness name, type, unit, size, header constraints
/// (unit, mask, value), forbidden header values, canonical new message, bits a setter may also clear
/// (reserved, or without meaning for the value written), and fields
/// (getter, setter, value type, bit ranges most significant first).
/// Source: UMP and MIDI 2.0 protocol layout (M2-104-UM) as documented by the crate.
#[macro_export]
macro_rules! for_each_fixed {
    ($cb:ident) => { $crate::$cb! {
    { cv1_channel_pressure, midi2::channel_voice1::ChannelPressure, u32, 1, [(0, 0xF0F00000, 0x20D00000)], [], [0x20D00000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (pressure, set_pressure, u7, [(0, 8, 7)])
    ] }
    { cv1_channel_pressure_b, midi2::channel_voice1::ChannelPressure, u8, 2, [(0, 0xF0, 0xD0)], [], [0xD0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (pressure, set_pressure, u7, [(1, 0, 7)])
    ] }
    { cv1_control_change, midi2::channel_voice1::ControlChange, u32, 1, [(0, 0xF0F00000, 0x20B00000)], [], [0x20B00000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (control, set_control, u7, [(0, 8, 7)]),
        (control_data, set_control_data, u7, [(0, 0, 7)])
    ] }
    { cv1_control_change_b, midi2::channel_voice1::ControlChange, u8, 3, [(0, 0xF0, 0xB0)], [], [0xB0, 0x0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (control, set_control, u7, [(1, 0, 7)]),
        (control_data, set_control_data, u7, [(2, 0, 7)])
    ] }
    { cv1_key_pressure, midi2::channel_voice1::KeyPressure, u32, 1, [(0, 0xF0F00000, 0x20A00000)], [], [0x20A00000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (pressure, set_pressure, u7, [(0, 0, 7)])
    ] }
    { cv1_key_pressure_b, midi2::channel_voice1::KeyPressure, u8, 3, [(0, 0xF0, 0xA0)], [], [0xA0, 0x0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (note_number, set_note_number, u7, [(1, 0, 7)]),
        (pressure, set_pressure, u7, [(2, 0, 7)])
    ] }
    { cv1_note_off, midi2::channel_voice1::NoteOff, u32, 1, [(0, 0xF0F00000, 0x20800000)], [], [0x20800000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (velocity, set_velocity, u7, [(0, 0, 7)])
    ] }
    { cv1_note_off_b, midi2::channel_voice1::NoteOff, u8, 3, [(0, 0xF0, 0x80)], [], [0x80, 0x0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (note_number, set_note_number, u7, [(1, 0, 7)]),
        (velocity, set_velocity, u7, [(2, 0, 7)])
    ] }
    { cv1_note_on, midi2::channel_voice1::NoteOn, u32, 1, [(0, 0xF0F00000, 0x20900000)], [], [0x20900000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (velocity, set_velocity, u7, [(0, 0, 7)])
    ] }
    { cv1_note_on_b, midi2::channel_voice1::NoteOn, u8, 3, [(0, 0xF0, 0x90)], [], [0x90, 0x0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (note_number, set_note_number, u7, [(1, 0, 7)]),
        (velocity, set_velocity, u7, [(2, 0, 7)])
    ] }
    { cv1_pitch_bend, midi2::channel_voice1::PitchBend, u32, 1, [(0, 0xF0F00000, 0x20E00000)], [], [0x20E00000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (bend, set_bend, u14, [(0, 0, 7), (0, 8, 7)])
    ] }
    { cv1_pitch_bend_b, midi2::channel_voice1::PitchBend, u8, 3, [(0, 0xF0, 0xE0)], [], [0xE0, 0x0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (bend, set_bend, u14, [(2, 0, 7), (1, 0, 7)])
    ] }
    { cv1_program_change, midi2::channel_voice1::ProgramChange, u32, 1, [(0, 0xF0F00000, 0x20C00000)], [], [0x20C00000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (program, set_program, u7, [(0, 8, 7)])
    ] }
    { cv1_program_change_b, midi2::channel_voice1::ProgramChange, u8, 2, [(0, 0xF0, 0xC0)], [], [0xC0, 0x0], [], [
        (channel, set_channel, u4, [(0, 0, 4)]),
        (program, set_program, u7, [(1, 0, 7)])
    ] }
    { cv2_assignable_controller, midi2::channel_voice2::AssignableController, u32, 2, [(0, 0xF0F00000, 0x40300000)], [], [0x40300000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (bank, set_bank, u7, [(0, 8, 7)]),
        (index, set_index, u7, [(0, 0, 7)]),
        (controller_data, set_controller_data, u32, [(1, 0, 32)])
    ] }
    { cv2_assignable_per_note_controller, midi2::channel_voice2::AssignablePerNoteController, u32, 2, [(0, 0xF0F00000, 0x40100000)], [], [0x40100000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (index, set_index, u8, [(0, 0, 8)]),
        (controller_data, set_controller_data, u32, [(1, 0, 32)])
    ] }
    { cv2_channel_pitch_bend, midi2::channel_voice2::ChannelPitchBend, u32, 2, [(0, 0xF0F00000, 0x40E00000)], [], [0x40E00000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (pitch_bend_data, set_pitch_bend_data, u32, [(1, 0, 32)])
    ] }
    { cv2_channel_pressure, midi2::channel_voice2::ChannelPressure, u32, 2, [(0, 0xF0F00000, 0x40D00000)], [], [0x40D00000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (bank, set_bank, u7, [(0, 8, 7)]),
        (index, set_index, u7, [(0, 0, 7)]),
        (channel_pressure_data, set_channel_pressure_data, u32, [(1, 0, 32)])
    ] }
    { cv2_control_change, midi2::channel_voice2::ControlChange, u32, 2, [(0, 0xF0F00000, 0x40B00000)], [], [0x40B00000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (control, set_control, u7, [(0, 8, 7)]),
        (control_change_data, set_control_change_data, u32, [(1, 0, 32)])
    ] }
    { cv2_key_pressure, midi2::channel_voice2::KeyPressure, u32, 2, [(0, 0xF0F00000, 0x40A00000)], [], [0x40A00000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (key_pressure_data, set_key_pressure_data, u32, [(1, 0, 32)])
    ] }
    { cv2_note_off, midi2::channel_voice2::NoteOff, u32, 2, [(0, 0xF0F00000, 0x40800000)], [], [0x40800000, 0x0], [(1, 0xFFFF)], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (velocity, set_velocity, u16, [(1, 16, 16)]),
        (attribute, set_attribute, Option<midi2::channel_voice2::NoteAttribute>, [(0, 0, 8), (1, 0, 16)])
    ] }
    { cv2_note_on, midi2::channel_voice2::NoteOn, u32, 2, [(0, 0xF0F00000, 0x40900000)], [], [0x40900000, 0x0], [(1, 0xFFFF)], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (velocity, set_velocity, u16, [(1, 16, 16)]),
        (attribute, set_attribute, Option<midi2::channel_voice2::NoteAttribute>, [(0, 0, 8), (1, 0, 16)])
    ] }
    { cv2_per_note_management, midi2::channel_voice2::PerNoteManagement, u32, 2, [(0, 0xF0F00000, 0x40F00000)], [], [0x40F00000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (detach, set_detach, bool, [(0, 0, 1)]),
        (reset, set_reset, bool, [(0, 1, 1)])
    ] }
    { cv2_per_note_pitch_bend, midi2::channel_voice2::PerNotePitchBend, u32, 2, [(0, 0xF0F00000, 0x40600000)], [], [0x40600000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (pitch_bend_data, set_pitch_bend_data, u32, [(1, 0, 32)])
    ] }
    { cv2_program_change, midi2::channel_voice2::ProgramChange, u32, 2, [(0, 0xF0F00000, 0x40C00000)], [], [0x40C00000, 0x0], [(1, 0xFFFF)], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (program, set_program, u7, [(1, 24, 7)]),
        (bank, set_bank, Option<u14>, [(0, 0, 1), (1, 0, 7), (1, 8, 7)])
    ] }
    { cv2_registered_controller, midi2::channel_voice2::RegisteredController, u32, 2, [(0, 0xF0F00000, 0x40200000)], [], [0x40200000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (bank, set_bank, u7, [(0, 8, 7)]),
        (index, set_index, u7, [(0, 0, 7)]),
        (controller_data, set_controller_data, u32, [(1, 0, 32)])
    ] }
    { cv2_registered_per_note_controller, midi2::channel_voice2::RegisteredPerNoteController, u32, 2, [(0, 0xF0F00000, 0x40000000)], [], [0x40000001, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (note_number, set_note_number, u7, [(0, 8, 7)]),
        (controller, set_controller, midi2::channel_voice2::Controller, [(0, 0, 8), (1, 0, 32)])
    ] }
    { cv2_relative_assignable_controller, midi2::channel_voice2::RelativeAssignableController, u32, 2, [(0, 0xF0F00000, 0x40500000)], [], [0x40500000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (bank, set_bank, u7, [(0, 8, 7)]),
        (index, set_index, u7, [(0, 0, 7)]),
        (controller_data, set_controller_data, u32, [(1, 0, 32)])
    ] }
    { cv2_relative_registered_controller, midi2::channel_voice2::RelativeRegisteredController, u32, 2, [(0, 0xF0F00000, 0x40400000)], [], [0x40400000, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (channel, set_channel, u4, [(0, 16, 4)]),
        (bank, set_bank, u7, [(0, 8, 7)]),
        (index, set_index, u7, [(0, 0, 7)]),
        (controller_data, set_controller_data, u32, [(1, 0, 32)])
    ] }
    { sc_tune_request, midi2::system_common::TuneRequest, u32, 1, [(0, 0xF0FF0000, 0x10F60000)], [], [0x10F60000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_tune_request_b, midi2::system_common::TuneRequest, u8, 1, [(0, 0xFF, 0xF6)], [], [0xF6], [], [
        
    ] }
    { sc_timing_clock, midi2::system_common::TimingClock, u32, 1, [(0, 0xF0FF0000, 0x10F80000)], [], [0x10F80000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_timing_clock_b, midi2::system_common::TimingClock, u8, 1, [(0, 0xFF, 0xF8)], [], [0xF8], [], [
        
    ] }
    { sc_start, midi2::system_common::Start, u32, 1, [(0, 0xF0FF0000, 0x10FA0000)], [], [0x10FA0000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_start_b, midi2::system_common::Start, u8, 1, [(0, 0xFF, 0xFA)], [], [0xFA], [], [
        
    ] }
    { sc_cont, midi2::system_common::Continue, u32, 1, [(0, 0xF0FF0000, 0x10FB0000)], [], [0x10FB0000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_cont_b, midi2::system_common::Continue, u8, 1, [(0, 0xFF, 0xFB)], [], [0xFB], [], [
        
    ] }
    { sc_stop, midi2::system_common::Stop, u32, 1, [(0, 0xF0FF0000, 0x10FC0000)], [], [0x10FC0000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_stop_b, midi2::system_common::Stop, u8, 1, [(0, 0xFF, 0xFC)], [], [0xFC], [], [
        
    ] }
    { sc_active_sensing, midi2::system_common::ActiveSensing, u32, 1, [(0, 0xF0FF0000, 0x10FE0000)], [], [0x10FE0000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_active_sensing_b, midi2::system_common::ActiveSensing, u8, 1, [(0, 0xFF, 0xFE)], [], [0xFE], [], [
        
    ] }
    { sc_reset, midi2::system_common::Reset, u32, 1, [(0, 0xF0FF0000, 0x10FF0000)], [], [0x10FF0000], [], [
        (group, set_group, u4, [(0, 24, 4)])
    ] }
    { sc_reset_b, midi2::system_common::Reset, u8, 1, [(0, 0xFF, 0xFF)], [], [0xFF], [], [
        
    ] }
    { sc_song_position_pointer, midi2::system_common::SongPositionPointer, u32, 1, [(0, 0xF0FF0000, 0x10F20000)], [], [0x10F20000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (position, set_position, u14, [(0, 0, 7), (0, 8, 7)])
    ] }
    { sc_song_position_pointer_b, midi2::system_common::SongPositionPointer, u8, 3, [(0, 0xFF, 0xF2)], [], [0xF2, 0x0, 0x0], [], [
        (position, set_position, u14, [(2, 0, 7), (1, 0, 7)])
    ] }
    { sc_song_select, midi2::system_common::SongSelect, u32, 1, [(0, 0xF0FF0000, 0x10F30000)], [], [0x10F30000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (song, set_song, u7, [(0, 8, 7)])
    ] }
    { sc_song_select_b, midi2::system_common::SongSelect, u8, 2, [(0, 0xFF, 0xF3)], [], [0xF3, 0x0], [], [
        (song, set_song, u7, [(1, 0, 7)])
    ] }
    { sc_time_code, midi2::system_common::TimeCode, u32, 1, [(0, 0xF0FF0000, 0x10F10000)], [], [0x10F10000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (time_code, set_time_code, u7, [(0, 8, 7)])
    ] }
    { sc_time_code_b, midi2::system_common::TimeCode, u8, 2, [(0, 0xFF, 0xF1)], [], [0xF1, 0x0], [], [
        (time_code, set_time_code, u7, [(1, 0, 7)])
    ] }
    { ut_no_op, midi2::utility::NoOp, u32, 1, [(0, 0xF0F00000, 0x0)], [], [0x0], [], [
        (time_data, set_time_data, u16, [(0, 0, 16)])
    ] }
    { ut_clock, midi2::utility::Clock, u32, 1, [(0, 0xF0F00000, 0x100000)], [], [0x100000], [], [
        (time_data, set_time_data, u16, [(0, 0, 16)])
    ] }
    { ut_timestamp, midi2::utility::Timestamp, u32, 1, [(0, 0xF0F00000, 0x200000)], [], [0x200000], [], [
        (time_data, set_time_data, u16, [(0, 0, 16)])
    ] }
    { ut_delta_clockstamp_tpq, midi2::utility::DeltaClockstampTpq, u32, 1, [(0, 0xF0F00000, 0x300000)], [], [0x300000], [], [
        (time_data, set_time_data, u16, [(0, 0, 16)])
    ] }
    { ut_delta_clockstamp, midi2::utility::DeltaClockstamp, u32, 1, [(0, 0xF0F00000, 0x400000)], [], [0x400000], [], [
        (time_data, set_time_data, u20, [(0, 0, 20)])
    ] }
    { fx_set_tempo, midi2::flex_data::SetTempo, u32, 4, [(0, 0xF0C0FFFF, 0xD0000000)], [(0, 0x300000, 0x0)], [0xD0100000, 0x0, 0x0, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (number_of_10_nanosecond_units_per_quarter_note, set_number_of_10_nanosecond_units_per_quarter_note, u32, [(1, 0, 32)])
    ] }
    { fx_set_time_signature, midi2::flex_data::SetTimeSignature, u32, 4, [(0, 0xF0C0FFFF, 0xD0000001)], [(0, 0x300000, 0x0)], [0xD0100001, 0x0, 0x0, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (numerator, set_numerator, u8, [(1, 24, 8)]),
        (denominator, set_denominator, u8, [(1, 16, 8)]),
        (number_of_32nd_notes, set_number_of_32nd_notes, u8, [(1, 8, 8)])
    ] }
    { fx_set_metronome, midi2::flex_data::SetMetronome, u32, 4, [(0, 0xF0C0FFFF, 0xD0000002)], [(0, 0x300000, 0x0)], [0xD0100002, 0x0, 0x0, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (number_of_clocks_per_primary_click, set_number_of_clocks_per_primary_click, u8, [(1, 24, 8)]),
        (bar_accent1, set_bar_accent1, u8, [(1, 16, 8)]),
        (bar_accent2, set_bar_accent2, u8, [(1, 8, 8)]),
        (bar_accent3, set_bar_accent3, u8, [(1, 0, 8)]),
        (number_of_subdivision_clicks1, set_number_of_subdivision_clicks1, u8, [(2, 24, 8)]),
        (number_of_subdivision_clicks2, set_number_of_subdivision_clicks2, u8, [(2, 16, 8)])
    ] }
    { fx_set_key_signature, midi2::flex_data::SetKeySignature, u32, 4, [(0, 0xF0C0FFFF, 0xD0000005)], [], [0xD0100005, 0x3000000, 0x0, 0x0], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (optional_channel, set_optional_channel, Option<u4>, [(0, 20, 2), (0, 16, 4)]),
        (sharps_flats, set_sharps_flats, midi2::flex_data::SetKeySignatureSharpsFlats, [(1, 28, 4)]),
        (tonic, set_tonic, midi2::flex_data::Tonic, [(1, 24, 4)])
    ] }
    { fx_set_chord_name, midi2::flex_data::SetChordName, u32, 4, [(0, 0xF0C0FFFF, 0xD0000006)], [], [0xD0100006, 0x3000000, 0x0, 0x3000000], [], [
        (group, set_group, u4, [(0, 24, 4)]),
        (optional_channel, set_optional_channel, Option<u4>, [(0, 20, 2), (0, 16, 4)]),
        (tonic_sharps_flats, set_tonic_sharps_flats, midi2::flex_data::SetChordNameSharpsFlats, [(1, 28, 4)]),
        (tonic, set_tonic, midi2::flex_data::Tonic, [(1, 24, 4)]),
        (chord_type, set_chord_type, midi2::flex_data::ChordType, [(1, 16, 8)]),
        (chord_alteration1, set_chord_alteration1, Option<midi2::flex_data::Alteration>, [(1, 8, 8)]),
        (chord_alteration2, set_chord_alteration2, Option<midi2::flex_data::Alteration>, [(1, 0, 8)]),
        (chord_alteration3, set_chord_alteration3, Option<midi2::flex_data::Alteration>, [(2, 24, 8)]),
        (chord_alteration4, set_chord_alteration4, Option<midi2::flex_data::Alteration>, [(2, 16, 8)]),
        (bass_sharps_flats, set_bass_sharps_flats, midi2::flex_data::SetChordNameSharpsFlats, [(3, 28, 4)]),
        (bass_note, set_bass_note, midi2::flex_data::Tonic, [(3, 24, 4)]),
        (bass_chord_type, set_bass_chord_type, midi2::flex_data::ChordType, [(3, 16, 8)]),
        (bass_alteration1, set_bass_alteration1, Option<midi2::flex_data::Alteration>, [(3, 8, 8)]),
        (bass_alteration2, set_bass_alteration2, Option<midi2::flex_data::Alteration>, [(3, 0, 8)])
    ] }
    { us_endpoint_discovery, midi2::ump_stream::EndpointDiscovery, u32, 4, [(0, 0xFFFF0000, 0xF0000000)], [], [0xF0000000, 0x0, 0x0, 0x0], [], [
        (ump_version_major, set_ump_version_major, u8, [(0, 8, 8)]),
        (ump_version_minor, set_ump_version_minor, u8, [(0, 0, 8)]),
        (request_endpoint_info, set_request_endpoint_info, bool, [(1, 0, 1)]),
        (request_device_identity, set_request_device_identity, bool, [(1, 1, 1)]),
        (request_endpoint_name, set_request_endpoint_name, bool, [(1, 2, 1)]),
        (request_product_instance_id, set_request_product_instance_id, bool, [(1, 3, 1)]),
        (request_stream_configuration, set_request_stream_configuration, bool, [(1, 4, 1)])
    ] }
    { us_endpoint_info, midi2::ump_stream::EndpointInfo, u32, 4, [(0, 0xFFFF0000, 0xF0010000)], [], [0xF0010000, 0x0, 0x0, 0x0], [], [
        (ump_version_major, set_ump_version_major, u8, [(0, 8, 8)]),
        (ump_version_minor, set_ump_version_minor, u8, [(0, 0, 8)]),
        (static_function_blocks, set_static_function_blocks, bool, [(1, 31, 1)]),
        (number_of_function_blocks, set_number_of_function_blocks, u7, [(1, 24, 7)]),
        (supports_midi2_protocol, set_supports_midi2_protocol, bool, [(1, 9, 1)]),
        (supports_midi1_protocol, set_supports_midi1_protocol, bool, [(1, 8, 1)]),
        (supports_receiving_jr_timestamps, set_supports_receiving_jr_timestamps, bool, [(1, 1, 1)]),
        (supports_sending_jr_timestamps, set_supports_sending_jr_timestamps, bool, [(1, 0, 1)])
    ] }
    { us_device_identity, midi2::ump_stream::DeviceIdentity, u32, 4, [(0, 0xFFFF0000, 0xF0020000)], [], [0xF0020000, 0x0, 0x0, 0x0], [], [
        (device_manufacturer, set_device_manufacturer, [u7; 3], [(1, 16, 7), (1, 8, 7), (1, 0, 7)]),
        (device_family, set_device_family, u14, [(2, 16, 7), (2, 24, 7)]),
        (device_family_model_number, set_device_family_model_number, u14, [(2, 0, 7), (2, 8, 7)]),
        (software_version, set_software_version, [u7; 4], [(3, 24, 7), (3, 16, 7), (3, 8, 7), (3, 0, 7)])
    ] }
    { us_stream_configuration_request, midi2::ump_stream::StreamConfigurationRequest, u32, 4, [(0, 0xFFFF0000, 0xF0050000)], [], [0xF0050000, 0x0, 0x0, 0x0], [], [
        (protocol, set_protocol, u8, [(0, 8, 8)]),
        (receive_jr_timestamps, set_receive_jr_timestamps, bool, [(0, 1, 1)]),
        (send_jr_timestamps, set_send_jr_timestamps, bool, [(0, 0, 1)])
    ] }
    { us_stream_configuration_notification, midi2::ump_stream::StreamConfigurationNotification, u32, 4, [(0, 0xFFFF0000, 0xF0060000)], [], [0xF0060000, 0x0, 0x0, 0x0], [], [
        (protocol, set_protocol, u8, [(0, 8, 8)]),
        (receive_jr_timestamps, set_receive_jr_timestamps, bool, [(0, 1, 1)]),
        (send_jr_timestamps, set_send_jr_timestamps, bool, [(0, 0, 1)])
    ] }
    { us_function_block_discovery, midi2::ump_stream::FunctionBlockDiscovery, u32, 1, [(0, 0xFFFF0000, 0xF0100000)], [], [0xF0100000], [], [
        (function_block_number, set_function_block_number, u8, [(0, 8, 8)]),
        (requesting_function_block_info, set_requesting_function_block_info, bool, [(0, 1, 1)]),
        (requesting_function_block_name, set_requesting_function_block_name, bool, [(0, 0, 1)])
    ] }
    { us_function_block_info, midi2::ump_stream::FunctionBlockInfo, u32, 4, [(0, 0xFFFF0000, 0xF0110000)], [], [0xF0110003, 0x0, 0x0, 0x0], [], [
        (active, set_active, bool, [(0, 15, 1)]),
        (function_block_number, set_function_block_number, u7, [(0, 8, 7)]),
        (ui_hint, set_ui_hint, midi2::ump_stream::UiHint, [(0, 4, 2)]),
        (midi1_port, set_midi1_port, Option<midi2::ump_stream::Midi1Port>, [(0, 2, 2)]),
        (direction, set_direction, midi2::ump_stream::Direction, [(0, 0, 2)]),
        (first_group, set_first_group, u4, [(1, 24, 4)]),
        (number_of_groups_spanned, set_number_of_groups_spanned, u8, [(1, 16, 8)]),
        (midi_ci_version, set_midi_ci_version, u8, [(1, 8, 8)]),
        (max_number_of_midi_ci_streams, set_max_number_of_midi_ci_streams, u8, [(1, 0, 8)])
    ] }
    { us_start_of_clip, midi2::ump_stream::StartOfClip, u32, 4, [(0, 0xFFFF0000, 0xF0200000)], [], [0xF0200000, 0x0, 0x0, 0x0], [], [
        
    ] }
    { us_end_of_clip, midi2::ump_stream::EndOfClip, u32, 4, [(0, 0xFFFF0000, 0xF0210000)], [], [0xF0210000, 0x0, 0x0, 0x0], [], [
        
    ] }
    } };
}
