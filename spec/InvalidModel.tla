---------------------------- MODULE InvalidModel ----------------------------
(***************************************************************************)
(* Frames which cannot be drawn: every small rectangle on a small screen,  *)
(* with and without color tables, with indices in and out of the table,    *)
(* alone and behind a frame which can be drawn.                            *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS SW, SH, Span

VARIABLES good, fr, gct, scr
vars == <<good, fr, gct, scr>>

Good == FrameItem(None, [k |-> "img", left |-> 0, top |-> 0, w |-> 1, h |-> 1,
                         flags |-> 128], Some(<<7, 8, 9, 4, 5, 6>>), <<1>>)

\* Graphic controls: without and with a transparent color, each disposal method
Controls == {None, Some(GceItem(1, 0, 0)), Some(GceItem(5, 3, 1)),
             Some(GceItem(9, 0, 4)), Some(GceItem(13, 7, 0)),
             Some(GceItem(12, 0, 255))}

\* n good frames, then one of any rectangle; lct: 0 none, 1 two colors,
\* 2 four colors; the last pixel has index idx
Init ==
    /\ good \in 0..1
    /\ gct \in {None, Some(<<1, 1, 1, 2, 2, 2>>)}
    /\ \E x \in Span, y \in Span, w \in Span, h \in Span, lct \in 0..2,
          idx \in {0, 1, 2, 3, 4}, gce \in Controls :
         /\ gce = None \/ x + y <= 1
         /\ lct = 0 \/ x + y <= 2
         /\ idx < 2 \/ x + y <= 1
         /\ fr = FrameItem(gce,
                   [k |-> "img", left |-> x, top |-> y, w |-> w, h |-> h,
                    flags |-> IF lct = 0 THEN 0 ELSE 127 + lct],
                   IF lct = 0 THEN None
                   ELSE Some([i \in 1..3 * 2^lct |-> 10 * i]),
                   [i \in 1..w * h |-> IF i = w * h THEN idx ELSE 0])
    /\ scr \in {<<SW, SH>>, <<0, SH>>, <<SW, 0>>}
    /\ scr = <<SW, SH>> \/ (fr.img.left = 0 /\ fr.img.top = 0)
Next == UNCHANGED vars

-----------------------------------------------------------------------------
\* Declarative: the errors which apply to the frame
Cells(f) == {<<f.img.left + a, f.img.top + b>>
                : a \in 0..f.img.w - 1, b \in 0..f.img.h - 1}
Colors(f) == IF f.lct # None THEN Len(f.lct[1]) \div 3
             ELSE IF gct # None THEN 2 ELSE 0
Wrong(f) ==
    (IF Cells(f) = {} \/ \E c \in Cells(f) : c[1] >= SW \/ c[2] >= SH
     THEN {"InvalidFrameDimensions"} ELSE {}) \cup
    (IF f.lct = None /\ gct = None THEN {"MissingColorTable"}
     ELSE IF \E i \in DOMAIN f.d : f.d[i] >= Colors(f)
     THEN {"InvalidColorIndex"} ELSE {})

Blocks ==
    <<[k |-> "hdr", v |-> <<56, 57, 97>>],
      [k |-> "lsd", w |-> scr[1], h |-> scr[2],
       flags |-> IF gct = None THEN 0 ELSE 128, bg |-> 0, ar |-> 0]>>
    \o (IF gct = None THEN <<>> ELSE <<[k |-> "gct", c |-> gct[1]]>>)
    \o Flatten([n \in 1..good |-> <<Good.img,
                                    [k |-> "lct", c |-> Good.lct[1]],
                                    [k |-> "dat", d |-> Good.d]>>])
    \o fr.gce \o <<fr.img>>
    \o (IF fr.lct = None THEN <<>> ELSE <<[k |-> "lct", c |-> fr.lct[1]]>>)
    \o <<[k |-> "dat", d |-> fr.d], [k |-> "trl"]>>

Runs == StepRuns(FileBytes(Blocks), DefaultMax, StepsInit, <<>>)

\* The good steps, then an error which applies (any, if there are two), or
\* a step if there is none
Right ==
    \A run \in Runs :
        IF scr # <<SW, SH>>
        THEN run = <<ErrItem("InvalidFrameDimensions"), NoneItem>>
        ELSE /\ Len(run) = good + 2
             /\ \A i \in 1..good : run[i].k = "step"
                                   /\ run[i].px[1] = 65536 * 4 + 256 * 5 + 6
             /\ IF Wrong(fr) = {} THEN run[good + 1].k = "step"
                ELSE run[good + 1].k = "err" /\ run[good + 1].e \in Wrong(fr)
             /\ run[good + 2] = NoneItem
AllErrors == scr = <<SW, SH>> => Cardinality(Runs) = MaxOf(1, Cardinality(Wrong(fr)))

Emit == PrintT(<<"SCN", ToJson([bytes |-> FileBytes(Blocks), runs |-> Runs])>>)
=============================================================================
