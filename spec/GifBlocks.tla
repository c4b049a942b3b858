----------------------------- MODULE GifBlocks -----------------------------
(***************************************************************************)
(* A GIF file as a sequence of blocks.                                     *)
(*                                                                         *)
(* Reader: BlockInit, NextBlock.  The state of the reader is a record      *)
(*   pos  number of bytes consumed                                         *)
(*   exp  what must come next: "hdr", "lsd", "gct", "lct", "dat" or "any"  *)
(*   ct   size of the expected color table, in bytes                       *)
(*   isz  number of pixels of the current image                            *)
(*   st   "run", or "end" after the trailer or an error                    *)
(* NextBlock gives the set of allowed outcomes [item, d]: usually exactly  *)
(* one; two when two errors coincide.  Items are records with a field k.   *)
(*                                                                         *)
(* Writer: Layout gives the bytes of every block but image data, which has *)
(* no unique encoding; IsData decides whether bytes encode given data.     *)
(***************************************************************************)
EXTENDS GifLzw

BlockInit == [pos |-> 0, exp |-> "hdr", ct |-> 0, isz |-> 0, st |-> "run"]

NoneItem == [k |-> "none"]
ErrItem(e) == [k |-> "err", e |-> e, v |-> <<>>]
IoError(what) == [k |-> "err", e |-> "Io", v |-> what]

Fail(d, e) == [item |-> ErrItem(e), d |-> [d EXCEPT !.st = "end"]]
Eof(d) == Fail(d, "UnexpectedEndOfFile")

Has(B, pos, n) == pos + n <= Len(B)
TableBytes(flags) ==
    IF BitField(flags, 7, 1) = 1 THEN 3 * 2^(BitField(flags, 0, 3) + 1) ELSE 0

ReadHeader(B, d) ==
    LET b == SubSeq(B, d.pos + 1, d.pos + 6)
        ver == SubSeq(b, 4, 6)
    IN IF ~Has(B, d.pos, 6) THEN Eof(d)
       ELSE IF SubSeq(b, 1, 3) # <<71, 73, 70>> THEN Fail(d, "MalformedHeader")
       ELSE IF ver \notin {<<56, 55, 97>>, <<56, 57, 97>>} THEN
           [item |-> [k |-> "err", e |-> "UnsupportedVersion", v |-> ver],
            d |-> [d EXCEPT !.st = "end"]]
       ELSE [item |-> [k |-> "hdr", v |-> ver],
             d |-> [d EXCEPT !.pos = @ + 6, !.exp = "lsd"]]

ReadScreen(B, d) ==
    LET p == d.pos
        ct == TableBytes(B[p + 5])
    IN IF ~Has(B, p, 7) THEN Eof(d)
       ELSE [item |-> [k |-> "lsd", w |-> LE16(B[p + 1], B[p + 2]),
                       h |-> LE16(B[p + 3], B[p + 4]), flags |-> B[p + 5],
                       bg |-> B[p + 6], ar |-> B[p + 7]],
             d |-> [d EXCEPT !.pos = p + 7, !.ct = ct,
                             !.exp = IF ct > 0 THEN "gct" ELSE "any"]]

ReadTable(B, d) ==
    IF ~Has(B, d.pos, d.ct) THEN Eof(d)
    ELSE [item |-> [k |-> d.exp, c |-> SubSeq(B, d.pos + 1, d.pos + d.ct)],
          d |-> [d EXCEPT !.pos = @ + d.ct, !.ct = 0,
                          !.exp = IF @ = "gct" THEN "any" ELSE "dat"]]

\* Sub-blocks up to the empty one: [subs, pos, eof]
SubBlock(B, r) ==
    IF r.st # "run" THEN r
    ELSE IF ~Has(B, r.pos, 1) THEN [r EXCEPT !.st = "eof"]
    ELSE LET n == B[r.pos + 1]
         IN IF n = 0 THEN [r EXCEPT !.st = "end", !.pos = @ + 1]
            ELSE IF ~Has(B, r.pos + 1, n) THEN [r EXCEPT !.st = "eof"]
            ELSE [r EXCEPT !.subs = Append(@, SubSeq(B, r.pos + 2,
                                                     r.pos + 1 + n)),
                           !.pos = @ + 1 + n]
\* (some at a time: TLC is slow at deep recursion)
RECURSIVE SubBlocksFrom(_, _)
SubBlocksFrom(B, r) ==
    LET x == FoldLeft(LAMBDA a, i : SubBlock(B, a), r, [i \in 1..100 |-> i])
    IN IF x.st = "run" THEN SubBlocksFrom(B, x)
       ELSE [subs |-> x.subs, pos |-> x.pos, eof |-> x.st = "eof"]
SubBlocks(B, pos, subs) ==
    SubBlocksFrom(B, [subs |-> subs, pos |-> pos, st |-> "run"])

GceItem(flags, delay, tr) ==
    [k |-> "gce", flags |-> flags, delay |-> delay, tr |-> tr]

ExtItem(label, s) ==
    CASE label = 1   -> [k |-> "pt", s |-> s]
      [] label = 249 -> IF s = <<>> THEN GceItem(0, 0, 0)
                        ELSE LET b == s[Len(s)]
                             IN GceItem(b[1], LE16(b[2], b[3]), b[4])
      [] label = 254 -> [k |-> "com", s |-> s]
      [] label = 255 -> [k |-> "app", s |-> s]
      [] OTHER       -> [k |-> "unk", id |-> <<label>>, s |-> s]

ReadExtension(B, d) ==
    LET label == B[d.pos + 2]
        r == SubBlocks(B, d.pos + 2, <<>>)
        badgce == label = 249 /\ \E i \in DOMAIN r.subs : Len(r.subs[i]) # 4
    IN IF ~Has(B, d.pos, 2) THEN {Eof(d)}
       ELSE (IF badgce THEN {Fail(d, "MalformedGraphicControlExtension")}
             ELSE {}) \cup
            (IF r.eof THEN {Eof(d)} ELSE {}) \cup
            (IF ~badgce /\ ~r.eof THEN
                 {[item |-> ExtItem(label, r.subs),
                   d |-> [d EXCEPT !.pos = r.pos, !.exp = "any"]]}
             ELSE {})

ReadImageDesc(B, d, max) ==
    LET p == d.pos + 1
        w == LE16(B[p + 5], B[p + 6])
        h == LE16(B[p + 7], B[p + 8])
        ct == TableBytes(B[p + 9])
    IN IF ~Has(B, d.pos, 10) THEN Eof(d)
       ELSE IF AreaExceeds(w, h, max) THEN Fail(d, "TooLargeImage")
       ELSE [item |-> [k |-> "img", left |-> LE16(B[p + 1], B[p + 2]),
                       top |-> LE16(B[p + 3], B[p + 4]), w |-> w, h |-> h,
                       flags |-> B[p + 9]],
             d |-> [d EXCEPT !.pos = p + 9, !.ct = ct, !.isz = w * h,
                             !.exp = IF ct > 0 THEN "lct" ELSE "dat"]]

\* Code sizes outside 2..8 are tolerated
ClampMin(n) == IF n < 2 THEN 2 ELSE IF n > 8 THEN 8 ELSE n

ReadData(B, d) ==
    LET r == SubBlocks(B, d.pos + 1, <<>>)
        z == LzwRun(Flatten(r.subs), ClampMin(B[d.pos + 1]), d.isz)
        good == {[item |-> [k |-> "dat", d |-> SubSeq(z.out, 1, d.isz)],
                  d |-> [d EXCEPT !.pos = r.pos, !.exp = "any"]]}
    IN IF ~Has(B, d.pos, 1) THEN {Eof(d)}
       ELSE IF z.st = "bad" THEN
           {Fail(d, "InvalidLzwData")} \cup
           (IF r.eof THEN {Eof(d)} ELSE {}) \cup
           \* an undefined code among surplus data need not be noticed
           (IF ~r.eof /\ Len(z.out) >= d.isz THEN good ELSE {})
       ELSE IF r.eof THEN {Eof(d)}
       ELSE IF Len(z.out) >= d.isz THEN good
       ELSE {Fail(d, "IncompleteImageData")}

ReadAny(B, d, max) ==
    IF ~Has(B, d.pos, 1) THEN {Eof(d)}
    ELSE CASE B[d.pos + 1] = 33 -> ReadExtension(B, d)
           [] B[d.pos + 1] = 44 -> {ReadImageDesc(B, d, max)}
           [] B[d.pos + 1] = 59 -> {[item |-> [k |-> "trl"],
                                     d |-> [d EXCEPT !.pos = @ + 1,
                                                     !.st = "end"]]}
           [] OTHER -> {Fail(d, "InvalidBlockCode")}

NextBlock(B, max, d) ==
    IF d.st = "end" THEN {[item |-> NoneItem, d |-> d]}
    ELSE CASE d.exp = "hdr" -> {ReadHeader(B, d)}
           [] d.exp = "lsd" -> {ReadScreen(B, d)}
           [] d.exp \in {"gct", "lct"} -> {ReadTable(B, d)}
           [] d.exp = "dat" -> ReadData(B, d)
           [] OTHER -> ReadAny(B, d, max)

\* Equality of items, safe for TLC: k decides which fields there are
Same(a, b) == a.k = b.k /\ a = b

-----------------------------------------------------------------------------
\* Writer

LayoutSubs(s) == Append(Flatten([i \in DOMAIN s |-> <<Len(s[i])>> \o s[i]]), 0)

Layout(b) ==
    CASE b.k = "hdr" -> <<71, 73, 70>> \o b.v
      [] b.k = "lsd" -> <<Lo8(b.w), Hi8(b.w), Lo8(b.h), Hi8(b.h), b.flags,
                          b.bg, b.ar>>
      [] b.k \in {"gct", "lct"} -> b.c
      [] b.k = "gce" -> <<33, 249, 4, b.flags, Lo8(b.delay), Hi8(b.delay),
                          b.tr, 0>>
      [] b.k = "pt"  -> <<33, 1>> \o LayoutSubs(b.s)
      [] b.k = "com" -> <<33, 254>> \o LayoutSubs(b.s)
      [] b.k = "app" -> <<33, 255>> \o LayoutSubs(b.s)
      [] b.k = "unk" -> <<33>> \o b.id \o LayoutSubs(b.s)
      [] b.k = "img" -> <<44, Lo8(b.left), Hi8(b.left), Lo8(b.top),
                          Hi8(b.top), Lo8(b.w), Hi8(b.w), Lo8(b.h), Hi8(b.h),
                          b.flags>>
      [] b.k = "trl" -> <<59>>

\* The bytes from pos (exclusive) encode the data; gives the end position,
\* or -1 if they do not
DataEnd(B, pos, data) ==
    LET r == SubBlocks(B, pos + 1, <<>>)
        z == LzwRun(Flatten(r.subs), B[pos + 1], Len(data) + 1)
    IN IF Has(B, pos, 1) /\ B[pos + 1] \in 2..8 /\ ~r.eof
          /\ z.st # "bad" /\ z.out = data
       THEN r.pos ELSE -1

\* The bytes from pos encode the block; gives the end position, or -1
BlockEnd(B, pos, b) ==
    IF b.k = "dat" THEN DataEnd(B, pos, b.d)
    ELSE LET y == Layout(b)
         IN IF Has(B, pos, Len(y)) /\ SubSeq(B, pos + 1, pos + Len(y)) = y
            THEN pos + Len(y) ELSE -1
=============================================================================
