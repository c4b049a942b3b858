------------------------------- MODULE GifLzw -------------------------------
(***************************************************************************)
(* The LZW variant of GIF, as a state machine over codes.                  *)
(*                                                                         *)
(* A decoder state is a record                                             *)
(*   min   minimum code size (2..8)                                        *)
(*   w     width of the next code in bits                                  *)
(*   tab   table: code c stands for the string tab[c + 1]                  *)
(*         (the clear and end codes hold an empty place)                   *)
(*   prev  string of the previous code; empty after a clear code           *)
(*   out   expanded data (not grown further once it has lim elements)      *)
(*   st    "run", "end" (end code seen) or "bad" (undefined code seen)     *)
(*   bp    position of the next code, in bits                              *)
(***************************************************************************)
EXTENDS GifBase

CONSTANT MaxBits  \* width of the longest code: 12 for GIF

ClearCode(min) == 2^min
EndCode(min) == 2^min + 1
FirstCode(min) == 2^min + 2

LzwTable(min) == [c \in 1..FirstCode(min) |->
                    IF c <= 2^min THEN <<c - 1>> ELSE <<>>]

LzwInit(min) == [min |-> min, w |-> min + 1, tab |-> LzwTable(min),
                 prev |-> <<>>, out |-> <<>>, st |-> "run", bp |-> 0]

\* The code stands for a string (possibly the one which it defines itself)
LzwDefined(s, code) ==
    IF s.prev = <<>> THEN code < ClearCode(s.min)
    ELSE \/ code < Len(s.tab)
         \/ code = Len(s.tab) /\ Len(s.tab) < 2^MaxBits

LzwString(s, code) ==
    IF code < Len(s.tab) THEN s.tab[code + 1]
    ELSE Append(s.prev, Head(s.prev))

\* Table after a (defined) data code
LzwGrow(s, str) ==
    IF s.prev = <<>> \/ Len(s.tab) = 2^MaxBits THEN s.tab
    ELSE Append(s.tab, Append(s.prev, Head(str)))

\* Width after a data code: one more bit as soon as the next table entry
\* could not be written with the current width
LzwWidth(tab, w) == IF Len(tab) = 2^w /\ w < MaxBits THEN w + 1 ELSE w

LzwCode(s, code, lim) ==
    IF code = ClearCode(s.min) THEN
        [s EXCEPT !.w = s.min + 1, !.tab = LzwTable(s.min), !.prev = <<>>,
                  !.bp = @ + s.w]
    ELSE IF code = EndCode(s.min) THEN
        [s EXCEPT !.st = "end", !.bp = @ + s.w]
    ELSE IF ~LzwDefined(s, code) THEN
        [s EXCEPT !.st = "bad", !.bp = @ + s.w]
    ELSE LET str == LzwString(s, code)
             tab == LzwGrow(s, str)
         IN [s EXCEPT !.out = IF Len(@) >= lim THEN @ ELSE @ \o str,
                      !.prev = str, !.tab = tab, !.w = LzwWidth(tab, @),
                      !.bp = @ + s.w]

\* Code of w bits at bit position bp (codes are packed from the low bit)
CodeAt(bytes, bp, w) ==
    LET i == 1 + bp \div 8
        n == Len(bytes)
        b(j) == IF j <= n THEN bytes[j] ELSE 0
    IN ((b(i) + 256 * b(i + 1) + 65536 * b(i + 2)) \div 2^(bp % 8)) % 2^w

\* Number of whole bits which are left
LzwRest(s, bytes) == 8 * Len(bytes) - s.bp

LzwNext(s, bytes, lim) ==
    IF s.st # "run" \/ LzwRest(s, bytes) < s.w THEN s
    ELSE LzwCode(s, CodeAt(bytes, s.bp, s.w), lim)

\* Run the decoder over a byte string.  The output of each group of codes is
\* put aside (appending to a long sequence takes time).
LzwRun(bytes, min, lim) ==
    LET K == 400
        N == (8 * Len(bytes)) \div (min + 1)
        Group(a, g) ==
            LET room == MaxOf(0, lim - a.n)
                s == FoldLeft(LAMBDA x, i : LzwNext(x, bytes, room),
                              [a.s EXCEPT !.out = <<>>],
                              [i \in 1..MinOf(K, N - K * g) |-> i])
            IN IF a.s.st # "run" THEN a
               ELSE [s |-> s, n |-> a.n + Len(s.out),
                     outs |-> Append(a.outs, s.out)]
        all == FoldLeft(Group, [s |-> LzwInit(min), n |-> 0, outs |-> <<>>],
                        [g \in 1..(N \div K + 1) |-> g - 1])
    IN [all.s EXCEPT !.out = Flatten(all.outs)]

\* Pack codes << <<code, width>>, ... >> into bytes; a last partial byte is
\* filled up with zero bits
LzwPack(codes) ==
    LET Emit(p) ==  \* at most 12 + 7 bits are pending
            IF p.n >= 16 THEN
                [v |-> p.v \div 65536, n |-> p.n - 16,
                 out |-> p.out \o <<p.v % 256, (p.v \div 256) % 256>>]
            ELSE IF p.n >= 8 THEN
                [v |-> p.v \div 256, n |-> p.n - 8,
                 out |-> Append(p.out, p.v % 256)]
            ELSE p
        P == FoldLeft(LAMBDA p, c : Emit([v |-> p.v + c[1] * 2^p.n,
                                          n |-> p.n + c[2], out |-> p.out]),
                      [v |-> 0, n |-> 0, out |-> <<>>], codes)
    IN IF P.n > 0 THEN Append(P.out, P.v) ELSE P.out

\* Is every code the one of the longest string which continues the data?
\* The code before and the first index of the next string become a new entry
\* of the table; they would be an old one if the string had not been the
\* longest.  pairs: entries of the table so far, as 256 * code + index; last:
\* the previous code (-1: none).  The table is cleared only at the start and
\* when it is full.
LongestNext(a, bytes) ==
    LET s == a.s
        n == LzwNext(s, bytes, 0)
        c == CodeAt(bytes, s.bp, s.w)
        pair == 256 * a.last + Head(n.prev)
    IN IF n = s \/ n.st # "run" \/ ~a.ok THEN [a EXCEPT !.s = n]
       ELSE IF c = ClearCode(s.min)
       THEN [a EXCEPT !.s = n, !.clear = TRUE,
                      !.ok = s.bp = 0 \/ Len(s.tab) = 2^MaxBits]
       ELSE [s |-> n, last |-> c, clear |-> FALSE,
             ok |-> a.last < 0 \/ pair \notin a.pairs,
             pairs |-> IF a.clear THEN {}
                       ELSE IF Len(n.tab) > Len(s.tab) THEN a.pairs \cup {pair}
                       ELSE a.pairs]
Longest(bytes, min) ==
    FoldLeft(LAMBDA a, i : LongestNext(a, bytes),
             [s |-> LzwInit(min), last |-> -1, clear |-> FALSE, ok |-> TRUE,
              pairs |-> {}],
             [i \in 1..(8 * Len(bytes)) \div (min + 1) |-> i]).ok
=============================================================================
