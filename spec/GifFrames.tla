----------------------------- MODULE GifFrames -----------------------------
(***************************************************************************)
(* Grouping of blocks into a preamble and frames.                          *)
(*                                                                         *)
(* GroupBlock is the pure grouping automaton, one block at a time:         *)
(*   gce, img, lct  blocks waiting for image data (optional values)        *)
(*   pre            preamble under construction (optional)                 *)
(*   out            what the block completed: a frame, an error or nothing *)
(* NextFrame and ReadPreamble drive it with the blocks of a byte string;   *)
(* their state is [d, g] with the block reader's state d.                  *)
(***************************************************************************)
EXTENDS GifBlocks

EmptyPreamble == [k |-> "pre", v |-> <<56, 57, 97>>,
                  lsd |-> [k |-> "lsd", w |-> 0, h |-> 0, flags |-> 0,
                           bg |-> 0, ar |-> 0],
                  gct |-> None, loop |-> None, com |-> <<>>]

GroupInit == [gce |-> None, img |-> None, lct |-> None, pre |-> None,
              out |-> None]

HasFrame(g) == g.gce # None \/ g.img # None \/ g.lct # None

\* Loop count of an application extension (optional value)
NETSCAPE == <<78, 69, 84, 83, 67, 65, 80, 69, 50, 46, 48>>
ANIMEXTS == <<65, 78, 73, 77, 69, 88, 84, 83, 49, 46, 48>>
LoopCount(s) ==
    IF Len(s) = 2 /\ s[1] \in {NETSCAPE, ANIMEXTS}
       /\ Len(s[2]) = 3 /\ s[2][1] = 1
    THEN Some(LE16(s[2][2], s[2][3])) ELSE None
LoopApp(n) == [k |-> "app", s |-> <<NETSCAPE, <<1, Lo8(n), Hi8(n)>>>>]

Transparent(gce) == IF gce # None /\ BitField(gce[1].flags, 0, 1) = 1
                    THEN Some(gce[1].tr) ELSE None
Disposal(gce) == IF gce = None THEN 0 ELSE BitField(gce[1].flags, 2, 3)

FrameItem(gce, img, lct, data) ==
    [k |-> "frame", gce |-> gce, img |-> img, lct |-> lct, d |-> data,
     disp |-> Disposal(gce), trn |-> Transparent(gce),
     geo |-> <<img.left, img.top, img.w, img.h>>,
     reg |-> <<img.left, img.top, img.w, img.h>>]

BadSequence == Some(ErrItem("InvalidBlockSequence"))

GroupBlock(g0, b) ==
    LET g == [g0 EXCEPT !.out = None]
    IN CASE b.k = "hdr" -> IF g.pre = None THEN g
                           ELSE [g EXCEPT !.pre[1].v = b.v]
         [] b.k = "lsd" -> IF g.pre = None THEN g
                           ELSE [g EXCEPT !.pre[1].lsd = b]
         [] b.k = "gct" -> IF g.pre = None THEN g
                           ELSE [g EXCEPT !.pre[1].gct = Some(b.c)]
         [] b.k = "app" -> IF g.pre = None \/ LoopCount(b.s) = None THEN g
                           ELSE [g EXCEPT !.pre[1].loop = Some(b)]
         [] b.k = "com" -> IF g.pre = None THEN g
                           ELSE [g EXCEPT !.pre[1].com = Append(@, b)]
         [] b.k = "pt"  -> [g EXCEPT !.gce = None]
         [] b.k = "gce" -> IF HasFrame(g) THEN [g EXCEPT !.out = BadSequence]
                           ELSE [g EXCEPT !.gce = Some(b)]
         [] b.k = "img" -> [g EXCEPT !.img = Some(b)]
         [] b.k = "lct" -> [g EXCEPT !.lct = Some(b.c)]
         [] b.k = "dat" -> [g EXCEPT !.gce = None, !.img = None, !.lct = None,
                                     !.out = Some(FrameItem(g.gce, g.img[1],
                                                            g.lct, b.d))]
         [] OTHER -> g

FramesInit == [d |-> BlockInit, g |-> GroupInit]

\* Next item of the frame iterator: set of [item, f]
RECURSIVE NextFrame(_, _, _)
NextFrame(B, max, f) ==
    UNION { IF r.item.k \in {"none", "err"}
            THEN {[item |-> r.item, f |-> [f EXCEPT !.d = r.d]]}
            ELSE LET g == GroupBlock(f.g, r.item)
                 IN IF g.out = None
                    THEN NextFrame(B, max, [d |-> r.d, g |-> g])
                    ELSE {[item |-> g.out[1],
                           f |-> [d |-> IF g.out[1].k = "err"
                                        THEN [r.d EXCEPT !.st = "end"]
                                        ELSE r.d,
                                  g |-> g]]}
          : r \in NextBlock(B, max, f.d) }

PreambleItem(p) == [k |-> "pre", v |-> p.v, lsd |-> p.lsd, gct |-> p.gct,
                    loop |-> p.loop, com |-> p.com,
                    size |-> <<p.lsd.w, p.lsd.h>>]

\* Preamble: set of [item, f]
RECURSIVE PreambleFrom(_, _, _)
PreambleFrom(B, max, f) ==
    UNION { CASE r.item.k = "none" ->
                   {[item |-> ErrItem("InvalidBlockSequence"),
                     f |-> [f EXCEPT !.d = r.d]]}
              [] r.item.k = "err" ->
                   {[item |-> r.item, f |-> [f EXCEPT !.d = r.d]]}
              [] OTHER ->
                   LET g == GroupBlock(f.g, r.item)
                   IN IF HasFrame(g)
                      THEN {[item |-> PreambleItem(g.pre[1]),
                             f |-> [d |-> r.d,
                                    g |-> [g EXCEPT !.pre = None]]]}
                      ELSE PreambleFrom(B, max, [d |-> r.d, g |-> g])
          : r \in NextBlock(B, max, f.d) }

ReadPreamble(B, max, f) ==
    IF HasFrame(f.g) THEN {[item |-> [k |-> "nopre"], f |-> f]}
    ELSE PreambleFrom(B, max, [f EXCEPT !.g.pre = Some(EmptyPreamble)])
=============================================================================
