"""Extraction of functions from /repo into Verus units.

Each unit names a function of /repo. Its body is copied verbatim from the current source, its
signature is replaced by the one in the unit (dictionary of what is replaced below) and loop
annotations are inserted in front of the opening brace of the named loops. Nothing else of the
body is touched except the listed textual replacements."""
import os, re, subprocess, sys, time, json

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo/midi2/src"


class Mismatch(Exception):
    pass


def strip(src):
    """Same length, comments and string contents blanked (braces only)."""
    out = list(src)
    i, n = 0, len(src)
    while i < n:
        if src.startswith("//", i):
            while i < n and src[i] != "\n":
                out[i] = " "
                i += 1
        elif src.startswith("/*", i):
            j = src.find("*/", i)
            j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != "\n":
                    out[k] = " "
            i = j
        elif src[i] == '"':
            i += 1
            while i < n and src[i] != '"':
                i += 2 if src[i] == "\\" else 1
            i += 1
        else:
            i += 1
    return "".join(out)


def match(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == "{":
            d += 1
        elif s[k] == "}":
            d -= 1
            if d == 0:
                return k
    raise Mismatch("unbalanced braces")


def body(src, name, within=None):
    """Text of the body (with braces) of fn `name`, optionally inside `within` (a prefix text)."""
    s = strip(src)
    at, end = 0, len(s)
    if within:
        at = s.find(within)
        if at < 0:
            raise Mismatch(f"{within!r} not found")
        at = s.index("{", at)
        end = match(s, at)
    m = re.compile(r"\bfn\s+%s\b" % re.escape(name)).search(s, at, end)
    if not m:
        raise Mismatch(f"fn {name} not found")
    # the body's brace: first one after the parameter list, outside generics
    p = s.index("(", m.end())
    # skip generic parameters with parenthesised Fn bounds
    if "<" in s[m.end():p]:
        d, k = 0, s.index("<", m.end())
        while True:
            if s[k] == "<":
                d += 1
            elif s[k] == ">" and s[k - 1] != "-":
                d -= 1
                if d == 0:
                    break
            k += 1
        p = s.index("(", k)
    d, k = 0, p
    while True:
        if s[k] == "(":
            d += 1
        elif s[k] == ")":
            d -= 1
            if d == 0:
                break
        k += 1
    b = s.index("{", k)
    e = match(s, b)
    return src[b:e + 1], strip(src)[b:e + 1]


def annotate(text, inserts, replaces, prologue):
    for old, new in replaces:
        pat = re.compile(r"\s+".join(re.escape(t) for t in old.split()))
        text, n = pat.subn(lambda m: new, text)
        if n == 0:
            raise Mismatch(f"{old!r} not found")
    for anchor, ann in inserts:
        pat = re.compile(r"\s+".join(re.escape(t) for t in anchor.split()) + r"\s*\{")
        ms = list(pat.finditer(text))
        if len(ms) != 1:
            raise Mismatch(f"loop {anchor!r}: {len(ms)} occurrences")
        b = ms[0].end() - 1
        inv, inner = ann if isinstance(ann, tuple) else (ann, "")
        text = text[:b] + "\n" + inv + "\n" + text[b] + inner + text[b + 1:]
    return "{" + prologue + text[1:]


INV = """
            cap == old(sysex).cap(), x == old(sysex).bytes(), d == data_.rest(),
            a == from(&range), b == to(&range, x.len() as int),
            sysex.cap() == cap, cap <= usize::MAX / 8,
            a == splice_begin, b == splice_end, a <= b <= x.len(), x.len() <= cap,
            initial_size == x.len(), splice_size == b - a,
            d.len() <= usize::MAX / 8,
            written <= d.len(), data.rest() == d.skip(written as int),
            forall|i: int| 0 <= i < a ==> #[trigger] sysex.bytes()[i] == x[i],
            forall|i: int| a <= i < a + written ==> #[trigger] sysex.bytes()[i] == d[i - a],
            forall|i: int| tail <= i < tail + (x.len() - b) ==> #[trigger] sysex.bytes()[i] == x[i - tail + b],
            sysex.bytes().len() >= tail + (x.len() - b),
            tail == a + running_data_size_estimate,
            written <= running_data_size_estimate,
"""
UNITS = {
    "splice": dict(
        template="splice.rs", title="detail::helpers: the payload edit shared by Sysex7 and Sysex8, all lengths, ranges, iterators and size hints",
        drops=["generic parameters B, R and the resize closure (a function `resize` with the contract of try_resize/resize is called instead)",
               "core::iter::Iterator, Peekable, core::ops::{Bound, RangeBounds} and the crate's SysexInternal are replaced by traits with their contracts",
               "the bounds of the range are matched by value, not by reference",
               "debug_assert_eq! becomes an assertion that is proved"],
        assumes=["compact, payload_size, resize / try_resize, move_payload_tail and write_datum of Sysex7 and Sysex8 meet the contracts of the trait in verus/splice.rs (checked bounded: C10, C11, C13 by Kani and natively)",
                 "iterators are finite and their size hints truthful; storage holds at most usize::MAX / 8 payload octets"],
        functions=[dict(file="detail/helpers.rs", fn="try_splice_sysex_data", within="mod detail", signature="splice_sig.rs",
        replaces=[("debug_assert_eq!(written, running_data_size_estimate);", "assert(written == running_data_size_estimate);"),
                  ("core::ops::Bound::", "Bound::"), ("Included(&v)", "Included(v)"), ("Excluded(&v)", "Excluded(v)"),
                  (".map_err(|_| crate::error::BufferOverflow)?;", ".map_err(|_e: SysexTryResizeError| -> BufferOverflow { BufferOverflow })?;")],
        prologue="""
        let ghost x = sysex.bytes();
        let ghost d = data_.rest();
        let data = data_;
        let ghost cap = sysex.cap();
        let ghost a = from(&range);
        let ghost b = to(&range, x.len() as int);
        proof { sysex.in_memory(); }
""",
        inserts=[("'main: loop", ("""
            invariant_except_break """ + INV + """
                additional_size_for_overflow >= 1,
                additional_size_for_overflow <= running_data_size_estimate + 1 || (additional_size_for_overflow <= 2 * running_data_size_estimate + 2 && running_data_size_estimate + x.len() - (b - a) == cap),
                tail + (x.len() - b) <= cap,
            ensures """ + INV + """
                written == d.len(),
                tail + (x.len() - b) <= cap,
            decreases d.len() - written, (if written < running_data_size_estimate { 0int } else { 1int }),
""", """
            proof { sysex.in_memory(); }
""")),
                 ("while written < running_data_size_estimate", ("""
                invariant """ + INV + """
                    tail + (x.len() - b) <= cap,
                ensures written == running_data_size_estimate,
                decreases running_data_size_estimate - written,
""", ""))]),
            dict(file="detail/helpers.rs", fn="try_splice_sysex_data", signature="splice_outer_sig.rs",
                 replaces=[("detail::try_splice_sysex_data(sysex, data, |s, sz| s.try_resize(sz), range)", "detail::try_splice_sysex_data(sysex, data, range)"),
                           ("sysex .try_resize(0) .map_err(|_| crate::error::BufferOverflow)?;", "resize(sysex, 0).map_err(|_e: SysexTryResizeError| -> BufferOverflow { BufferOverflow })?;")]),
            dict(file="detail/helpers.rs", fn="splice_sysex_data", signature="splice_grow_sig.rs",
                 replaces=[("detail::try_splice_sysex_data( sysex, data, |s, sz| { s.resize(sz); Ok(()) }, range, )", "detail::try_splice_sysex_data(sysex, data, range)")])],
    ),
    "validate": dict(
        template="validate.rs", title="detail::helpers::validate_sysex_group_statuses: the packet forms of sysex7, sysex8, text and name messages, any number of packets",
        assumes=["the iterator over the whole packets of the type at the start of the slice (core::slice::ChunksExact, TakeWhile, Peekable)", "the form predicates of each message type (checked bounded: C17)"],
        drops=["the iterator chain chunks_exact(stride).take_while(type nibble).peekable() is replaced by an iterator with its contract: the whole packets of the type at the start of the slice",
               "u4 is modelled as u8; error texts are empty", "while let Some(..) = .. is written as a loop with a let-else"],
        functions=[dict(file="detail/helpers.rs", fn="validate_sysex_group_statuses", signature="validate_sig.rs",
        replaces=[("use crate::{detail::BitOps, error::InvalidData};", ""),
                  ("buffer .chunks_exact(stride) .take_while(|chunk| chunk[0].nibble(0) == ump_type) .peekable();", "packets(buffer, stride, ump_type);"),
                  ("while let Some(chunk) = iter.next() {", "loop { let Some(chunk) = iter.next() else { break; };")],
        prologue="\n    let ghost n = run(buffer@, stride as int, ump_type as int);\n",
        inserts=[("loop", """
        invariant
            iter.at() <= n, stride > 0, n > 1, n == run(buffer@, stride as int, ump_type as int), iter.n() == n, iter.b() == buffer@, iter.stride() == stride, iter.at() >= 1,
            begin(packet(buffer@, stride as int, 0)),
            forall|c: &[u32]| #[trigger] is_continue.requires((c,)), forall|c: &[u32], r: bool| #[trigger] is_continue.ensures((c,), r) ==> r == cont(c@),
            forall|c: &[u32]| #[trigger] is_end.requires((c,)), forall|c: &[u32], r: bool| #[trigger] is_end.ensures((c,), r) ==> r == end(c@),
            forall|k: int| 0 < k < iter.at() && k < n - 1 ==> cont(#[trigger] packet(buffer@, stride as int, k)),
            iter.at() >= n ==> end(packet(buffer@, stride as int, n - 1)),
        ensures iter.at() >= n,
        decreases n - iter.at(),
""")])],
    ),
}



# ------------------------------------------------------------------ payload iteration
KEEP = "final(self).d() == old(self).d()"
DROP1 = KEEP + """,
            final(self).inv(),
            old(self).rest().len() > 0 ==> %sfinal(self).rest() == old(self).rest().drop_first(),
            old(self).rest().len() == 0 ==> %sfinal(self).rest().len() == 0,
"""
NEXT = DROP1 % ("r == Some(old(self).rest()[0]) && ", "r is None && ")
NTH = KEEP + """,
            n0 < old(self).rest().len() ==> r == Some(old(self).rest()[n0 as int]) && final(self).rest() == old(self).rest().skip(n0 + 1) && final(self).inv(),
            n0 >= old(self).rest().len() ==> r is None,
"""
SKIPLOOP = """
            invariant
                self.d() == old(self).d(), self.inv(), self.rest() == old(self).rest(), self.data == old(self).data, self.size_cache == old(self).size_cache,
            ensures self.size_cache > 0 ==> self.ready(),
            decreases count(self.data@) - self.packet_index,
"""
SKIPIN = """
            proof {
                lemma_index(self.data@, self.packet_index as int);
                assert(self.packet_index < count(self.data@));
                assert(packet(self.data@, self.packet_index as int).skip(0) =~= Seq::empty());
                assert(self.rest() =~= from(self.data@, self.packet_index + 1));
                if self.packet_index + 1 < count(self.data@) { assert(packet(self.data@, self.packet_index + 1).skip(0) =~= packet(self.data@, self.packet_index + 1)); }
            }
"""


def payload_unit(file, w, off, bias, mx, ump):
    """ump: suffix of the helper names in sysex7.rs, with the word form in a match arm"""
    sfx = "_ump" if ump else ""
    cur = "current_packet_size_ump" if ump else "size_of_current_packet"
    imp = "impl<'a, U: crate::buffer::Unit> PayloadIterator<'a, U>" if ump else "impl PayloadIterator<'_>"
    itr = "impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U>" if ump else "impl core::iter::Iterator for PayloadIterator<'_>"
    arm = "crate::buffer::UNIT_ID_U32 =>" if ump else None
    data = "self.data_ump()" if ump else "self.data"
    fin = f"!self.finished{sfx}() && self.{cur}() == 0"
    nib = [("u8::from(packet[0].nibble(3))", "packet[0].nibble(3)")]
    fns = []

    def fn(name, sig, within=imp, **k):
        fns.append(dict(file=file, fn=name, within=within, sig=sig, **k))
    if ump:
        fns.append(dict(file=None, sig="    fn data_ump(&self) -> (r: &'a [u32]) ensures r == self.data { self.data }\n"))
    fn("packet_size", """    fn packet_size(packet: &[u32]) -> (r: usize)
        requires packet@.len() >= 1, nib_(packet@[0], 3) >= @BIAS,
        ensures r == nib_(packet@[0], 3) - @BIAS,
""", replaces=nib)
    fn("finished" + sfx, f"""    fn finished{sfx}(&self) -> (r: bool)
        ensures r == (self.size_cache == 0),
""")
    fn("value" + sfx, f"""    fn value{sfx}(&self) -> (r: u8)
        requires self.ready(),
        ensures r == self.rest()[0],
""", replaces=[(".septet(", ".octet(")] if ump else [], prologue="""
        proof {
            lemma_index(self.data@, self.packet_index as int);
            assert(self.rest()[0] == byte(self.data@, self.packet_index as int, self.payload_index as int));
        }
""")
    fn(cur, f"""    fn {cur}(&self) -> (r: usize)
        requires wf(self.data@), self.packet_index < count(self.data@),
        ensures r == size(self.data@, self.packet_index as int),
""", replaces=[(f"&{data}[self.packet_index * 2..self.packet_index * 2 + 2]" if ump else "&self.data[self.packet_index * 4..(self.packet_index * 4 + 4)]",
                f"slice(self.data, self.packet_index * {w}, self.packet_index * {w} + {w})")],
       prologue="\n proof { lemma_index(self.data@, self.packet_index as int); assert(size(self.data@, self.packet_index as int) >= 0); }\n")
    if ump:
        fn("skip_empty_packets_ump", """    fn skip_empty_packets_ump(&mut self)
        requires old(self).inv(),
        ensures final(self).d() == old(self).d(), final(self).inv(), final(self).rest() == old(self).rest(), final(self).size_cache > 0 ==> final(self).ready(),
            final(self).size_cache == old(self).size_cache,
""", inserts=[("while " + fin, (SKIPLOOP, SKIPIN))])
    fn("advance" + sfx, f"""    fn advance{sfx}(&mut self)
        requires old(self).ready(),
        ensures final(self).d() == old(self).d(), final(self).inv(), final(self).rest() == old(self).rest().drop_first(),
""", prologue="""
        proof {
            let d = self.data@; let k = self.packet_index as int; let i = self.payload_index as int;
            lemma_index(d, k);
            assert(packet(d, k).skip(i).drop_first() =~= packet(d, k).skip(i + 1));
            assert(self.rest().drop_first() =~= packet(d, k).skip(i + 1) + from(d, k + 1));
            assert(size(d, k) <= @MAX);
            if i + 1 == size(d, k) { assert(packet(d, k).skip(i + 1) =~= Seq::empty()); assert(self.rest().drop_first() =~= from(d, k + 1)); }
            if k + 1 < count(d) { assert(packet(d, k + 1).skip(0) =~= packet(d, k + 1)); }
        }
""")
    nx = dict(arm=arm) if ump else {}
    fn("next", "    pub fn next(&mut self) -> (r: Option<u8>)\n        requires old(self).inv(),\n        ensures " + NEXT,
       within=itr, inserts=[] if ump else [("while " + fin, (SKIPLOOP, SKIPIN))], **nx)
    fn("nth", "    fn do_nth(&mut self, n0: usize) -> (r: Option<u8>)\n        requires old(self).inv(),\n        ensures " + NTH, within=itr,
       arm="let mut do_nth = ||", replaces=[(f"{data}[self.packet_index * {w}..] .chunks_exact({w}) .enumerate()", "packets(self.data, self.packet_index)"),
                                      ("self.next() }", "proof { assert(x.skip(n0 as int).drop_first() =~= x.skip(n0 + 1)); assert(x.skip(n0 as int)[0] == x[n0 as int]); } self.next() }")],
       prologue="""
        let mut n = n0;
        let ghost d = self.data@; let ghost k0 = self.packet_index as int; let ghost i0 = self.payload_index as int; let ghost x = self.rest();
        proof {
            assert(k0 * W <= d.len()) by (nonlinear_arith) requires 0 <= k0 <= d.len() as int / W as int, W == @W;
            if k0 < count(d) {
                lemma_index(d, k0);
                assert(size(d, k0) >= 0);
                lemma_total(d, k0 + 1);
                assert(packet(d, k0).skip(i0).len() == size(d, k0) - i0);
                if n0 < size(d, k0) - i0 {
                    assert(packet(d, k0).skip(i0).skip(n0 as int) =~= packet(d, k0).skip(i0 + n0));
                    assert(x.skip(n0 as int) =~= packet(d, k0).skip(i0 + n0) + from(d, k0 + 1));
                    assert(x.skip(n0 as int).drop_first() =~= x.skip(n0 + 1));
                } else {
                    assert(x.skip(size(d, k0) - i0) =~= from(d, k0 + 1));
                }
            }
        }
""", inserts=[("loop", ("""
                invariant_except_break
                    self.payload_index == i0,
                    self.packet_index == k0, packets.first() == k0, packets.d() == d, packets.at() >= 1, k0 + packets.at() <= count(d),
                    n <= n0, n0 - n <= x.len(), x.skip(n0 - n) == from(d, k0 + packets.at()), self.size_cache == from(d, k0 + packets.at()).len(),
                invariant
                    self.data@ == d, wf(d), self.data == old(self).data, k0 < count(d), x == old(self).rest(), d == old(self).d(), old(self).inv(), k0 == old(self).packet_index,
                ensures
                    self.inv(), n0 < x.len(), self.rest() == x.skip(n0 as int),
                decreases count(d) - k0 - packets.at(),
""", """
                proof {
                    let k = k0 + packets.at();
                    if k < count(d) {
                        lemma_index(d, k);
                        assert(0 <= size(d, k) <= @MAX);
                        lemma_total(d, k);
                        assert(from(d, k) == packet(d, k) + from(d, k + 1));
                        if n < size(d, k) {
                            assert(x.skip(n0 as int) =~= x.skip(n0 - n).skip(n as int));
                            assert(x.skip(n0 as int) =~= packet(d, k).skip(n as int) + from(d, k + 1));
                        } else {
                            assert(x.skip(n0 - n + size(d, k)) =~= x.skip(n0 - n).skip(size(d, k)));
                            assert(x.skip(n0 - n + size(d, k)) =~= from(d, k + 1));
                        }
                    } else { assert(from(d, k).len() == 0); assert(x.skip(n0 - n).len() == 0); assert(x.len() == n0 - n); }
                }
"""))])
    fn("nth", "    pub fn nth(&mut self, n: usize) -> (r: Option<u8>)\n        requires old(self).inv(),\n        ensures " + NTH.replace("n0", "n") +
       "            n >= old(self).rest().len() ==> final(self).rest().len() == 0 && final(self).inv(),\n", within=itr,
       cut="let mut do_nth = ||", replaces=[("do_nth()", "self.do_nth(n)")], **nx)
    fn("payload", """    pub fn payload(&self) -> (r: PayloadIterator<'a>)
        requires wf(self.d()),
        ensures r.d() == self.d(), r.inv(), r.rest() == from(self.d(), 0),
""", within="impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B>" if ump else "impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B>", arm=arm, slot="@MSG",
       replaces=[("self .data() .specialise_u32() .chunks_exact(2) .map(PayloadIterator::<B::Unit>::packet_size) .sum::<usize>()" if ump
                  else "self .data() .chunks_exact(4) .map(PayloadIterator::packet_size) .sum()", "total(self.data())")],
       prologue="\n proof { if count(self.d()) > 0 { assert(packet(self.d(), 0).skip(0) =~= packet(self.d(), 0)); } }\n")
    return dict(
        template="payload.rs", params=dict(W=w, OFF=off, BIAS=bias, MAX=mx, FILE=file),
        title=f"{file}: payload iteration over any number of packets of any sizes: next, nth",
        drops=["the closure inside nth becomes a function of its own (its text unchanged)", "chunks_exact(..).enumerate() and slicing with a range are replaced by functions with their contracts",
               "u4 and u7 are modelled as u8"],
        assumes=["nibble, octet and septet read the bits they name (C01 by Kani)", "every packet declares a size within its packet (accepted messages: C17)"],
        functions=fns)



UNITS["payload8"] = payload_unit("sysex8.rs", 4, 3, 1, 13, False)
UNITS["payload7"] = payload_unit("sysex7.rs", 2, 2, 0, 6, True)


def block(text, marker):
    """start of `marker` in `text` and the brace block that follows it"""
    m = re.compile(r"\s+".join(re.escape(x) for x in marker.split())).search(text)
    if not m:
        raise Mismatch(f"{marker!r} not found")
    s = strip(text)
    b = s.find("{", m.end())
    if b < 0 or text[m.end():b].strip():
        raise Mismatch(f"{marker!r}: no block")
    e = match(s, b)
    return m.start(), b, e


def unit(name):
    u = UNITS[name]
    t = open(os.path.join(ROOT, "verus", u["template"])).read()
    fns = {"@FNS": "", "@MSG": ""}
    for k, f in enumerate(u["functions"]):
        if f["file"] is None:
            fns["@FNS"] += f["sig"]
            continue
        src = open(os.path.join(REPO, f["file"])).read()
        text, _ = body(src, f["fn"], f.get("within"))
        if f.get("arm"):
            _, b, e = block(text, f["arm"])
            text = text[b:e + 1]
        if f.get("cut"):
            a, _, e = block(text, f["cut"])
            text = text[:a] + text[e + 1:].lstrip().removeprefix(";")
        sig = f["sig"] if "sig" in f else open(os.path.join(ROOT, "verus", f["signature"])).read()
        out = sig + annotate(text, f.get("inserts", []), f.get("replaces", []), f.get("prologue", "")) + "\n"
        if "sig" in f:
            fns[f.get("slot", "@FNS")] += out
            continue
        mark = "//@FUNCTION" + (str(k + 1) if k else "")
        if mark not in t:
            raise Mismatch("template")
        t = t.replace(mark + "\n", out)
    for k, v in fns.items():
        t = t.replace(k, v)
    for k, v in u.get("params", {}).items():
        t = t.replace("@" + k, str(v))
    return t


def verify(name, out, timeout=200):
    """dict(state=proved|failed|mismatch|timeout, verified, errors, seconds, output)"""
    t0 = time.time()
    try:
        os.makedirs(out, exist_ok=True)
        p = os.path.join(out, name + ".rs")
        open(p, "w").write(unit(name))
    except (Mismatch, ValueError, OSError) as e:
        return dict(state="mismatch", verified=0, errors=0, seconds=0.0, output=str(e))
    try:
        r = subprocess.run(["verus", p, "--rlimit", "60"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, cwd=out)
    except subprocess.TimeoutExpired:
        return dict(state="timeout", verified=0, errors=0, seconds=time.time() - t0, output="")
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", r.stdout)
    v, e = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if "Resource limit" in r.stdout or "rlimit" in r.stdout:
        return dict(state="timeout", verified=v, errors=e, seconds=round(time.time() - t0, 1), output=r.stdout)
    st = "proved" if m and e == 0 and r.returncode == 0 else ("failed" if m else "mismatch")
    return dict(state=st, verified=v, errors=e, seconds=round(time.time() - t0, 1), output=r.stdout)


if __name__ == "__main__":
    for n in sys.argv[1:] or UNITS:
        r = verify(n, "/tmp/verus_" + n)
        print(n, {k: v for k, v in r.items() if k != "output"})
        print(r["output"][-6000:])
