---------------------------- MODULE ComposeModel ----------------------------
(***************************************************************************)
(* Composition of an animation: the running picture of GifSteps against a  *)
(* definition which looks at the history of a single pixel.                *)
(* Every animation from a small alphabet of frames, up to a length.        *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS SW, SH, Rects, Disposals, Controls, Interlace, MaxFrames, Printed

VARIABLES frs, ended
vars == <<frs, ended>>

Gct == <<10, 11, 12, 20, 21, 22>>

\* Rectangles are written as 1000 * left + 100 * top + 10 * w + h
Rect(n) == [left |-> n \div 1000, top |-> (n \div 100) % 10,
            w |-> (n \div 10) % 10, h |-> n % 10]
\* Controls: 0 none, 1 without transparency, 2 index 0 is transparent
Gce(c, disp, delay) ==
    IF c = 0 THEN None
    ELSE Some(GceItem(4 * disp + (IF c = 2 THEN 1 ELSE 0), delay, 0))

FramesOf(n) ==
    UNION { LET r == Rect(q)
            IN {FrameItem(Gce(c, d, n),
                          [k |-> "img", left |-> r.left, top |-> r.top,
                           w |-> r.w, h |-> r.h, flags |-> il + 128 * lt],
                          IF lt = 1 THEN Some(<<30 + n, 0, 1, 31, 2, 3>>)
                          ELSE None, data)
                : c \in Controls, d \in Disposals, il \in Interlace,
                  lt \in {n % 2}, data \in [1..r.w * r.h -> {0, 1}]}
          : q \in Rects }

Init == frs = <<>> /\ ended = FALSE
Next == \/ /\ ~ended /\ Len(frs) < MaxFrames
           /\ \E f \in FramesOf(Len(frs) + 1) : frs' = Append(frs, f)
           /\ UNCHANGED ended
        \/ ~ended /\ frs # <<>> /\ ended' = TRUE /\ UNCHANGED frs
        \/ ended /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Declarative: color of pixel (x, y) while frame n is shown, and the color
\* on which frame n is drawn

RowOrder(h) ==  \* rows in the order in which an interlaced image has them
    LET Pass(a, s) == SelectSeq([i \in 1..h |-> i - 1],
                                LAMBDA y : y >= a /\ (y - a) % s = 0)
    IN Pass(0, 8) \o Pass(4, 8) \o Pass(2, 4) \o Pass(1, 2)

ASSUME \A h \in 1..40 : \A y \in 0..h - 1 :
            RowOrder(h)[InterlacedRow(h, y) + 1] = y

IndexAt(fr, x, y) ==
    LET row == IF (fr.img.flags \div 64) % 2 = 1
               THEN CHOOSE r \in 1..fr.img.h :
                       RowOrder(fr.img.h)[r] = y - fr.img.top
               ELSE y - fr.img.top + 1
    IN fr.d[(row - 1) * fr.img.w + (x - fr.img.left) + 1]

RECURSIVE Under(_, _, _), Shown(_, _, _)
Shown(n, x, y) ==
    LET fr == frs[n]
    IN IF Inside(fr.img, x, y) /\ fr.trn # Some(IndexAt(fr, x, y))
       THEN Color(IF fr.lct # None THEN fr.lct[1] ELSE Gct, IndexAt(fr, x, y))
       ELSE Under(n, x, y)
Under(n, x, y) ==
    IF n = 1 THEN Clear
    ELSE LET fr == frs[n - 1]
         IN CASE fr.disp = 2 /\ Inside(fr.img, x, y) -> Clear
              [] fr.disp = 3 -> Under(n - 1, x, y)
              [] OTHER -> Shown(n - 1, x, y)

Expected ==
    [n \in DOMAIN frs |->
        StepItem(SW, SH, [i \in 1..SW * SH |->
                             Shown(n, (i - 1) % SW, (i - 1) \div SW)],
                 frs[n])]
    \o <<NoneItem>>

Blocks ==
    <<[k |-> "hdr", v |-> <<56, 57, 97>>],
      [k |-> "lsd", w |-> SW, h |-> SH, flags |-> 128, bg |-> 1, ar |-> 0],
      [k |-> "gct", c |-> Gct]>>
    \o Flatten([n \in DOMAIN frs |->
                 frs[n].gce \o <<frs[n].img>>
                 \o (IF frs[n].lct = None THEN <<>>
                     ELSE <<[k |-> "lct", c |-> frs[n].lct[1]]>>)
                 \o <<[k |-> "dat", d |-> frs[n].d]>>])
    \o <<[k |-> "trl"]>>

Composed ==
    ended => StepRuns(FileBytes(Blocks), DefaultMax, StepsInit, <<>>)
             = {Expected}

Emit == ended /\ Printed =>
    PrintT(<<"SCN", ToJson([bytes |-> FileBytes(Blocks),
                            steps |-> Expected])>>)
=============================================================================
