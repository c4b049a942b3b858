----------------------------- MODULE GifEncode -----------------------------
(***************************************************************************)
(* The encoders.                                                           *)
(*                                                                         *)
(* Image data has many encodings; DataVerdict says whether bytes are one   *)
(* which every decoder can read.  The frame encoder is a protocol          *)
(* automaton [pre, trl]; FrameCall gives the outcome of a call and the     *)
(* blocks it must write.  The step encoder is built on top of it.          *)
(***************************************************************************)
EXTENDS GifSteps

-----------------------------------------------------------------------------
\* Image data

\* Bits left behind the last whole code are the low bits of the end code
PartOfEnd(s, bytes) ==
    LET r == LzwRest(s, bytes)
    IN CodeAt(bytes, s.bp, r) = EndCode(s.min) % 2^r

\* The table has just grown so that codes became one bit wider
JustWidened(s) == Len(s.tab) = 2^(s.w - 1) /\ s.w > s.min + 1

\* "ok"   a stream which begins with a clear code, expands to the data and
\*        closes with the end code (and less than a byte of padding)
\* "cut"  as above, but the last bits of the end code, which would need
\*        another byte, are missing (known finding of C02)
\* "bad"  anything else
StreamVerdict(bytes, min, data) ==
    LET s == LzwRun(bytes, min, Len(data) + 1)
        r == LzwRest(s, bytes)
    IN IF \/ Len(bytes) = 0 \/ 8 * Len(bytes) < min + 1
          \/ CodeAt(bytes, 0, min + 1) # ClearCode(min)
          \/ s.out # data
       THEN "bad"
       ELSE IF s.st = "end" THEN (IF r < 8 THEN "ok" ELSE "bad")
       ELSE IF s.st = "run" /\ PartOfEnd(s, bytes)
               /\ s.w - r <= (IF JustWidened(s) THEN 8 ELSE 7)
       THEN "cut" ELSE "bad"

\* The bytes of an image data block, as a whole
DataVerdict(B, data) ==
    LET r == SubBlocks(B, 1, <<>>)
    IN IF \/ B = <<>> \/ B[1] \notin 2..8 \/ 2^B[1] <= MaxIn(data)
          \/ r.eof \/ r.pos # Len(B)
       THEN "bad"
       ELSE StreamVerdict(Flatten(r.subs), B[1], data)

\* The bytes of an image data block are compressed as well as LZW can
Compressed(B, data) ==
    /\ DataVerdict(B, data) # "bad"
    /\ B[1] = 2 \/ 2^(B[1] - 1) <= MaxIn(data)
    /\ Longest(Flatten(SubBlocks(B, 1, <<>>).subs), B[1])

-----------------------------------------------------------------------------
\* Blocks of a preamble and of a frame, in file order

HeaderBlock(v) == [k |-> "hdr", v |-> v]
PreambleBlocks(p) ==
    <<HeaderBlock(p.v), p.lsd>>
    \o (IF p.gct = None THEN <<>> ELSE <<[k |-> "gct", c |-> p.gct[1]]>>)
    \o p.loop \o p.com
FrameBlocks(f) ==
    f.gce \o <<f.img>>
    \o (IF f.lct = None THEN <<>> ELSE <<[k |-> "lct", c |-> f.lct[1]]>>)
    \o <<[k |-> "dat", d |-> f.d]>>

\* The bytes from pos encode the blocks; gives the end position, or -1
RECURSIVE BlocksEnd(_, _, _)
BlocksEnd(B, pos, bs) ==
    IF bs = <<>> \/ pos < 0 THEN pos
    ELSE BlocksEnd(B, BlockEnd(B, pos, Head(bs)), Tail(bs))

-----------------------------------------------------------------------------
\* Frame encoder

EncInit == [pre |-> FALSE, trl |-> FALSE]

OkItem == [k |-> "ok"]
IoItem == IoError(<<>>)

\* Is the call allowed in this state?
Allows(e, c) == CASE c.k = "pre" -> ~e.pre
                  [] c.k = "frame" -> e.pre /\ ~e.trl
                  [] OTHER -> e.pre /\ ~e.trl
CallBlocks(c) == CASE c.k = "pre" -> PreambleBlocks(c)
                   [] c.k = "frame" -> FrameBlocks(c)
                   [] OTHER -> <<[k |-> "trl"]>>
\* State after a call which succeeded
After(e, c) == CASE c.k = "pre" -> [e EXCEPT !.pre = TRUE]
                 [] c.k = "frame" -> e
                 [] OTHER -> [e EXCEPT !.trl = TRUE]

\* A call on a writer which accepts everything: [res, blocks, e]
FrameCall(e, c) ==
    IF Allows(e, c)
    THEN [res |-> OkItem, blocks |-> CallBlocks(c), e |-> After(e, c)]
    ELSE [res |-> ErrItem("InvalidBlockSequence"), blocks |-> <<>>, e |-> e]

-----------------------------------------------------------------------------
\* Step encoder.  A step is [w, h, px, pal, ops]; ops are the builder calls
\* ["disp", n], ["tr", [n] or []], ["delay", [n] or []]; ["copy", []] goes on
\* with a copy of the step.

StepSet(ctl, op) ==
    CASE op[1] = "disp" -> [ctl EXCEPT !.disp = op[2] % 8]
      [] op[1] = "tr" -> [ctl EXCEPT !.trn = op[2]]
      [] op[1] = "copy" -> ctl
      [] OTHER -> [ctl EXCEPT !.delay = IF op[2] = None THEN 0 ELSE op[2][1]]
StepDefault == [disp |-> 0, trn |-> None, delay |-> 0]
Settings(ops) == FoldLeft(StepSet, StepDefault, ops)

\* Graphic control of a step (none if everything is at its default)
StepControl(ctl) ==
    IF ctl = StepDefault THEN None
    ELSE Some(GceItem(4 * ctl.disp + (IF ctl.trn = None THEN 0 ELSE 1),
                      ctl.delay,
                      IF ctl.trn = None THEN 0 ELSE ctl.trn[1]))

\* Color table of a palette: the smallest power of two from 2 to 256 which
\* holds it, filled up with black
TableLen(n) == CHOOSE p \in {2, 4, 8, 16, 32, 64, 128, 256} :
                   /\ p >= MinOf(n, 256)
                   /\ p = 2 \/ p \div 2 < MinOf(n, 256)
PaletteTable(pal) ==
    LET n == 3 * TableLen(Len(pal) \div 3)
    IN [i \in 1..n |-> IF i <= Len(pal) THEN pal[i] ELSE 0]

StepFrame(st) ==
    FrameItem(StepControl(Settings(st.ops)),
              [k |-> "img", left |-> 0, top |-> 0, w |-> st.w, h |-> st.h,
               flags |-> 0],
              Some(PaletteTable(st.pal)), st.px)

TooLarge(st) == st.w > 65535 \/ st.h > 65535
OtherSize(st, size) == size # None /\ size[1] # <<st.w, st.h>>

\* Errors for which a step is refused (size: that of the first step)
StepErrors(st, size) ==
    (IF TooLarge(st) THEN {"TryFromInt"} ELSE {}) \cup
    (IF OtherSize(st, size) THEN {"InvalidRasterDimensions"} ELSE {})

\* Pictures of steps (frames which cover the screen), composed
ComposeSteps(sts) ==
    LET w == sts[1].w
        Add(a, st) ==
            LET fr == StepFrame(st)
                px == Draw(a.cv, w, fr, fr.lct[1])
            IN [cv |-> Dispose(a.cv, px, w, fr),
                out |-> Append(a.out, StepItem(w, sts[1].h, px, fr))]
    IN IF sts = <<>> THEN <<>>
       ELSE FoldLeft(Add, [cv |-> [i \in 1..w * sts[1].h |-> Clear],
                           out |-> <<>>], sts).out
=============================================================================
