----------------------------- MODULE LoopModel -----------------------------
(***************************************************************************)
(* The repeating iterator: every number of steps, loop count and error,    *)
(* over many calls.                                                        *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS MaxSteps, LoopCounts, MaxCalls, Printed

VARIABLES m,      \* number of steps
          err,    \* a decoding error follows them
          lc,     \* loop count (optional)
          ls,     \* state of the iterator
          got     \* items returned
vars == <<m, err, lc, ls, got>>

\* Step n is a single pixel with color n; the items are its tags
Items == [i \in 1..m |-> [k |-> "step", n |-> i]]
         \o (IF err THEN <<ErrItem("UnexpectedEndOfFile")>> ELSE <<>>)

Init == /\ m \in 0..MaxSteps /\ err \in BOOLEAN
        /\ lc \in {None} \cup {Some(n) : n \in LoopCounts}
        /\ ls = LoopInit(Items, lc)
        /\ got = <<>>
Call == /\ Len(got) < MaxCalls
        /\ LET r == LoopNext(ls) IN ls' = r.l /\ got' = Append(got, r.item)
        /\ UNCHANGED <<m, err, lc>>
Next == Call \/ (Len(got) = MaxCalls /\ UNCHANGED vars)

-----------------------------------------------------------------------------
\* Item number c, from the numbers alone
Passes == IF lc = None \/ err THEN 1 ELSE lc[1] + 1
Endless == ~err /\ m > 0 /\ lc = Some(0)
Nth(c) == IF Endless \/ c <= m * Passes
          THEN [k |-> "step", n |-> ((c - 1) % m) + 1]
          ELSE IF err /\ c = m + 1 THEN ErrItem("UnexpectedEndOfFile")
          ELSE NoneItem
Right == \A c \in DOMAIN got : Same(got[c], Nth(c))

-----------------------------------------------------------------------------
\* As a file: m single pixel frames whose colors are 1..m
File ==
    <<[k |-> "hdr", v |-> <<56, 57, 97>>],
      [k |-> "lsd", w |-> 1, h |-> 1, flags |-> 130, bg |-> 0, ar |-> 0],
      [k |-> "gct", c |-> [i \in 1..24 |-> IF i % 3 = 0 THEN i \div 3 - 1
                                           ELSE 0]]>>
    \o (IF lc = None THEN <<>> ELSE <<LoopApp(lc[1])>>)
    \o Flatten([n \in 1..m |->
            <<[k |-> "img", left |-> 0, top |-> 0, w |-> 1, h |-> 1,
               flags |-> 0], [k |-> "dat", d |-> <<n>>]>>])
    \o (IF err THEN <<>> ELSE <<[k |-> "trl"]>>)

Emit == Printed /\ Len(got) = MaxCalls /\ (m > 0 \/ err) =>
    PrintT(<<"SCN", ToJson([bytes |-> FileBytes(File), got |-> got])>>)
=============================================================================
