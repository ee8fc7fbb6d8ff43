"""Per-property configuration of the checks."""
T_KANI = "contracts (pre/post harnesses on the real functions) discharged by Kani/CBMC"
T_VERUS = "; Verus contracts on the generic functions, extracted from the source (all lengths)"
TB = " Trusted: rustc/Kani/CBMC/CaDiCaL, the wire-format tables in h/src. "
FULL = "Every obligation is discharged for all contents, all field values and all relevant lengths of fixed-size messages; loops are fully unwound (the unwinding assertions are obligations)." + TB
NAT = "Bounded stand-in: the contract is executed on the real code over pseudo-random inputs, not proved."
PROPS = {
    "C01": dict(features=["c01"], technique=T_KANI, note=FULL),
    "C02": dict(features=["c02"], technique=T_KANI, note=FULL),
    "C03": dict(features=["c03"], technique=T_KANI, note=FULL + "Known finding fbd_new_one_word."),
    "C04": dict(features=["c04"], technique=T_KANI, note=FULL + "Known finding fbd_one_word."),
    "C05": dict(features=["c05"], level="proof", bounded=["multi::", "texts::", "names::"], native_features=["std"], native=[dict(match="h::c05::nat::*", ms=15000), dict(match="h::c05::multi::*", ms=2000)],
                bounds="texts (quick: four of the 18 types) and names: one packet by Kani; sysex7: 8 bytes (thorough: and 2 words) by Kani; aggregates and other slices: up to 26 words / bytes at random natively, long messages up to about 4200 bytes",
                technique=T_KANI, note="Proved for every fixed-size message (all slices around its size, every getter and the packet iterator). Bounded: multi-packet messages and "
                "aggregates." + TB),
    "C06": dict(features=["c06"], level="proof", bounded=["fx_", "::us", "top1", "top2"], native=[dict(match="h::c06::nat::*", ms=12000), dict(match="h::c06::fx*", ms=3000), dict(match="h::c06::top2", ms=1000)],
                bounds="UMP stream: slices of 4 words, UmpMessage: 1 word by Kani (thorough: also flex data at 4 words, UmpMessage at 2 words); longer slices and flex data natively",
                technique=T_KANI, note="Proved for the fixed-size families and byte forms (all slices around the message size). Bounded: UMP stream "
                "aggregates at 4 words, UmpMessage at 1 word (Kani; thorough tier: flex data at 4 words, UmpMessage at 2); the rest natively at random." + TB),
    "C07": dict(features=["c07"], level="proof", bounded=["multi::"], native=[dict(match="h::c07::nat::*", ms=10000)],
                bounds="multi-packet messages: up to 3 packets (sysex7), 2 packets (others), 10 bytes; up to 300 packets natively",
                technique=T_KANI, note="Proved for every fixed-size message (all contents, all following units). Bounded: multi-packet messages. Known finding fbd_packets." + TB),
    "C08": dict(features=["c08"], level="proof", native=[dict(match="h::c08::nat::*", ms=15000)],
                bounds="multi-packet messages and aggregates: natively, up to about 4200 bytes",
                technique=T_KANI, note="Proved for every fixed-size message (exact, larger, smaller arrays, growable storage, array to array). Bounded: multi-packet messages "
                "and aggregates, executed natively. Known finding rebuffer_trailing." + TB),
    "C09": dict(features=["c09"], level="proof", bounded=["sysex_"], native=[dict(match="h::c09::nat::*", ms=15000)],
                bounds="7-bit sysex: by Kani the empty payload, natively up to about 4200 bytes",
                technique=T_KANI, note="Proved for every fixed-size message, directly and through the aggregates. Bounded: system exclusive messages." + TB),
    "C10": dict(features=["c10"], verus=["splice"], level="other", bounded=["."], native=[dict(match="h::c10::nat::*", ms=15000)],
                bounds="Kani: two shapes of UMP edits and four of byte edits (payloads up to 14 bytes, octets arbitrary except those beside the size field); natively edit sequences on payloads up to about 4200 bytes",
                technique=T_KANI + T_VERUS + "; bounded native execution of the same contracts",
                note="Proved by Verus for all lengths, ranges, iterators and size hints: the payload edit (splice) against the contracts of resize, compact, move and write. Bounded (Kani and natively): "
                "those contracts on Sysex7 and the form of the resulting packets." + TB),
    "C11": dict(features=["c11"], verus=["splice"], level="other", kani=False, native=[dict(match="h::c11::nat::*", ms=15000)],
                bounds="natively: edit sequences on payloads up to about 4200 bytes",
                technique="Verus contracts on the payload edit, extracted from the source (all lengths); bounded native execution of the message contracts",
                note="Proved by Verus for all lengths: the payload edit against the contracts of resize, compact, move and write. Bounded natively: those contracts on Sysex8, packet form, group and stream id."),
    "C12": dict(features=["c12"], verus=["payload7", "payload8"], level="other", bounded=["sizes::", "::bytes"], native=[dict(match="h::c12::nat::*", ms=15000)],
                bounds="Kani: packets completely; messages of 1 to 4 packets with 18 constant combinations of sizes, octets outside the first words arbitrary; byte form up to 9 bytes; natively up to 300 packets",
                technique=T_KANI + T_VERUS,
                note="Proved by Verus for any number of packets of any sizes: construction, next and nth of both UMP payload iterators. Proved by Kani: the iterators of single packets. "
                "Bounded: the remaining iterator methods on whole messages and the byte form." + TB),
    "C13": dict(features=["c13"], verus=["splice"], level="other", kani=False, native=[dict(match="h::c13::nat::*", ms=15000)],
                bounds="natively: fixed-capacity storage up to about 4200 bytes",
                technique="Verus contracts on the payload edit, extracted from the source (all lengths and capacities); bounded native execution of the message contracts",
                note="Proved by Verus for all lengths: the sysex payload edit succeeds exactly when the result fits, never writes out of bounds, and leaves an empty payload otherwise. "
                "Bounded natively: whole messages, texts and names."),
    "C14": dict(features=["c14"], level="other", bounded=["."], native_features=["std"], native=[dict(match="h::c14::nat::*", ms=15000), dict(match="h::c14::read", ms=2000)],
                bounds="texts of 0, 12, 13 and 25 bytes by Kani (quick: four of the 18 text types, thorough: all; all contents) over arbitrary previous storage, up to about 4200 bytes natively",
                technique=T_KANI, note="Bounded: text lengths 0, 12, 13, 25 symbolic; other lengths natively at random." + TB),
    "C15": dict(features=["c15"], level="other", bounded=["."], native_features=["std"], native=[dict(match="h::c15::nat::*", ms=15000), dict(match="h::c15::read*", ms=2000)],
                bounds="names of 0, 1, capacity, capacity + 1 and 2 capacity + 1 bytes by Kani (all contents) over arbitrary previous storage, up to about 4200 bytes natively",
                technique=T_KANI, note="Bounded: name lengths around the packet boundary symbolic; other lengths natively at random." + TB),
    "C16": dict(features=["c16"], level="proof", bounded=["texts::", "sysex::"], native=[dict(match="h::c16::nat::*", ms=15000)],
                bounds="multi-packet messages: up to 3 packets (sysex7) and 2 packets (others) by Kani (texts: first words of two-packet messages constant; quick: four of the 18 types), up to 300 packets natively",
                technique=T_KANI, note="Proved for every fixed-size message (directly and through its aggregate) and every packet type. Bounded: multi-packet messages." + TB),
    "C17": dict(features=["c17"], verus=["validate"], level="other", bounded=["."], native=[dict(match="h::c17::nat::*", ms=8000)],
                bounds="slices up to 7 words (sysex7), 9 words (others), 9 bytes by Kani; up to 300 packets natively",
                technique=T_KANI + T_VERUS,
                note="Proved by Verus for any number of packets: the acceptance of packet sequences against the form predicates. Bounded: whole parsers, symbolic slices up to 7 words (sysex7), "
                "9 words (others), 9 bytes (Kani); longer ones natively at random." + TB),
    "C18": dict(features=["c18"], technique=T_KANI, note=FULL),
}
NA = {}
