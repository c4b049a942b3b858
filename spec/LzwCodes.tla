------------------------------ MODULE LzwCodes ------------------------------
(***************************************************************************)
(* All code streams up to a length, valid or not, with the outcome GIF     *)
(* defines for them; printed for replay against the real decoder.          *)
(*                                                                         *)
(* After every prefix the stream may stop (truncated, no end code).  The   *)
(* image size is chosen around the number of pixels of the stream.         *)
(***************************************************************************)
EXTENDS GifBlocks, Json

CONSTANTS MinCode, MaxCodes, Junk, Sizes

VARIABLES codes, dec, stop
vars == <<codes, dec, stop>>

Lim == 100000

Init == codes = <<>> /\ dec = LzwInit(MinCode) /\ stop = FALSE

\* Interesting codes: the first and last literals, clear, end, all defined
\* strings, the one being defined, and those beyond
CodeChoices == {0, 1, 2^MinCode - 1}
           \cup {c \in 2^MinCode .. 2^dec.w - 1 : c <= Len(dec.tab) + 2}
           \cup {2^dec.w - 1}

Code(c) == /\ ~stop /\ dec.st = "run" /\ Len(codes) < MaxCodes
           /\ codes' = Append(codes, <<c, dec.w>>)
           /\ dec' = LzwCode(dec, c, Lim)
           /\ UNCHANGED stop

Stop == /\ ~stop /\ stop' = TRUE /\ UNCHANGED <<codes, dec>>

Next == (\E c \in CodeChoices : Code(c)) \/ Stop \/ (stop /\ UNCHANGED vars)

\* An undefined code leaves the output as it is, everything else is defined
Sane == /\ dec.w <= MaxBits /\ Len(dec.tab) <= 2^MaxBits
        /\ dec.st = "bad" => LET d == LzwRun(LzwPack(codes), MinCode, Lim)
                             IN d.st = "bad" /\ d.out = dec.out

-----------------------------------------------------------------------------
\* File with one image of n x 1 pixels
File(n, bytes) ==
    <<71, 73, 70, 56, 57, 97, Lo8(n), Hi8(n), 1, 0, 0, 0, 0>>
    \o <<44, 0, 0, 0, 0, Lo8(n), Hi8(n), 1, 0, 0, MinCode>>
    \o LayoutSubs(IF bytes = <<>> THEN <<>> ELSE <<bytes>>) \o <<59>>

Scenario(n) ==
    LET B == File(n, LzwPack(codes) \o (IF Junk THEN <<255, 0, 170>> ELSE <<>>))
        d0 == [BlockInit EXCEPT !.pos = 23, !.exp = "dat", !.isz = n]
        r == ReadData(B, d0)
    IN [bytes |-> B, items |-> {x.item : x \in r}]

Emit == stop => \A x \in Sizes :  \* 1: exactly the size of the data
            LET n == Len(dec.out) + x - 1
            IN n < 0 \/ PrintT(<<"SCN", ToJson(Scenario(n))>>)
=============================================================================
