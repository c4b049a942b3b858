------------------------------ MODULE GifSteps ------------------------------
(***************************************************************************)
(* Composition of frames into the pictures of an animation.                *)
(*                                                                         *)
(* A picture is a sequence of w * h pixels, row by row; a pixel is -1      *)
(* (clear) or 65536 * red + 256 * green + blue.                            *)
(*                                                                         *)
(* State of the composition: [f, on, w, h, cv, gct, loop, st]              *)
(*   on    the preamble has been read                                      *)
(*   cv    picture on which the next frame is drawn                        *)
(*   st    "run", or "end" after the last step or an error                 *)
(***************************************************************************)
EXTENDS GifFrames

Clear == -1
MaxInt == 2147483647

\* Position in the image data of row y of an interlaced image of height h:
\* every 8th row from 0, every 8th from 4, every 4th from 2, every 2nd from 1
InterlacedRow(h, y) ==
    LET c1 == (h + 7) \div 8
        c2 == (h + 3) \div 8
        c3 == (h + 1) \div 4
    IN IF y % 8 = 0 THEN y \div 8
       ELSE IF y % 8 = 4 THEN c1 + y \div 8
       ELSE IF y % 4 = 2 THEN c1 + c2 + y \div 4
       ELSE c1 + c2 + c3 + y \div 2

Color(tbl, i) == 65536 * tbl[3 * i + 1] + 256 * tbl[3 * i + 2] + tbl[3 * i + 3]

\* Index of the frame's pixel at x, y (relative to the frame)
FramePixel(fr, x, y) ==
    LET row == IF BitField(fr.img.flags, 6, 1) = 1
               THEN InterlacedRow(fr.img.h, y) ELSE y
    IN fr.d[row * fr.img.w + x + 1]

Inside(img, x, y) == /\ x >= img.left /\ x < img.left + img.w
                     /\ y >= img.top /\ y < img.top + img.h

Draw(cv, sw, fr, tbl) ==
    [i \in 1..Len(cv) |->
        LET x == (i - 1) % sw
            y == (i - 1) \div sw
        IN IF ~Inside(fr.img, x, y) THEN cv[i]
           ELSE LET c == FramePixel(fr, x - fr.img.left, y - fr.img.top)
                IN IF fr.trn = Some(c) THEN cv[i] ELSE Color(tbl, c)]

Dispose(before, after, sw, fr) ==
    CASE fr.disp = 2 -> [i \in 1..Len(after) |->
                            IF Inside(fr.img, (i - 1) % sw, (i - 1) \div sw)
                            THEN Clear ELSE after[i]]
      [] fr.disp = 3 -> before
      [] OTHER -> after

\* Errors of a frame (a set; empty if it can be drawn)
FrameErrors(fr, sw, sh, gct) ==
    LET tbl == IF fr.lct # None THEN fr.lct ELSE gct
        geom == \/ fr.img.w = 0 \/ fr.img.h = 0
                \/ fr.img.left + fr.img.w > sw \/ fr.img.top + fr.img.h > sh
    IN (IF geom THEN {"InvalidFrameDimensions"} ELSE {}) \cup
       (IF tbl = None THEN {"MissingColorTable"}
        ELSE IF MaxIn(fr.d) >= Len(tbl[1]) \div 3 /\ fr.d # <<>>
             THEN {"InvalidColorIndex"} ELSE {})

StepItem(w, h, px, fr) ==
    [k |-> "step", w |-> w, h |-> h, px |-> px,
     delay |-> IF fr.gce = None THEN 0 ELSE fr.gce[1].delay,
     trn |-> fr.trn]

StepsInit == [f |-> FramesInit, on |-> FALSE, w |-> 0, h |-> 0, cv |-> <<>>,
              gct |-> None, loop |-> None, st |-> "run"]

StepsEnd(s, item) == {[item |-> item, s |-> [s EXCEPT !.st = "end"]]}

ScreenLimit(max) == IF max < 0 THEN MaxInt ELSE max

\* The next frame, drawn: set of [item, s]
DrawNext(B, max, s) ==
    UNION { IF r.item.k # "frame" THEN StepsEnd([s EXCEPT !.f = r.f], r.item)
            ELSE LET fr == r.item
                     errs == FrameErrors(fr, s.w, s.h, s.gct)
                     tbl == IF fr.lct # None THEN fr.lct[1] ELSE s.gct[1]
                     px == Draw(s.cv, s.w, fr, tbl)
                 IN IF errs # {}
                    THEN UNION {StepsEnd(s, ErrItem(e)) : e \in errs}
                    ELSE {[item |-> StepItem(s.w, s.h, px, fr),
                           s |-> [s EXCEPT !.f = r.f,
                                           !.cv = Dispose(s.cv, px, s.w, fr)]]}
          : r \in NextFrame(B, max, s.f) }

\* Next item of the step iterator: set of [item, s]
NextStep(B, max, s) ==
    IF s.st = "end" THEN {[item |-> NoneItem, s |-> s]}
    ELSE IF s.on THEN DrawNext(B, max, s)
    ELSE UNION { IF r.item.k = "err" THEN StepsEnd(s, r.item)
                 ELSE LET p == r.item
                          w == p.lsd.w
                          h == p.lsd.h
                          errs == (IF w = 0 \/ h = 0
                                   THEN {"InvalidFrameDimensions"} ELSE {})
                                  \cup
                                  (IF AreaExceeds(w, h, ScreenLimit(max))
                                   THEN {"TooLargeImage"} ELSE {})
                      IN IF errs # {}
                         THEN UNION {StepsEnd(s, ErrItem(e)) : e \in errs}
                         ELSE DrawNext(B, max,
                                [s EXCEPT !.f = r.f, !.on = TRUE, !.w = w,
                                          !.h = h,
                                          !.cv = [i \in 1..w * h |-> Clear],
                                          !.gct = p.gct,
                                          !.loop = IF p.loop = None THEN None
                                                   ELSE LoopCount(p.loop[1].s)])
               : r \in ReadPreamble(B, max, s.f) }

-----------------------------------------------------------------------------
\* Repetition.  State: [items, loop, n, st] where items are the steps (and
\* possibly a final error), n the number of items returned in this pass and
\* loop the number of further passes (None: no more, 0: without end).

LoopInit(items, loop) == [items |-> items, loop |-> loop, n |-> 0]

LoopNext(l) ==
    LET m == Len(l.items)
        failed == m > 0 /\ l.items[m].k = "err"
    IN IF l.n < m
       THEN [item |-> l.items[l.n + 1], l |-> [l EXCEPT !.n = @ + 1]]
       ELSE IF failed \/ m = 0 \/ l.loop = None
       THEN [item |-> NoneItem, l |-> l]
       ELSE [item |-> l.items[1],
             l |-> [l EXCEPT !.n = 1,
                             !.loop = IF @[1] = 0 THEN @
                                      ELSE IF @[1] = 1 THEN None
                                      ELSE Some(@[1] - 1)]]
=============================================================================
