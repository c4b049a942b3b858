---------------------------- MODULE EncoderModel ----------------------------
(***************************************************************************)
(* The frame encoder on a writer that may fail: every sequence of calls up *)
(* to a length, with the writer failing at any byte, for ever or once.     *)
(***************************************************************************)
EXTENDS GifWrite, GifEncode

CONSTANTS MaxCalls, Faults, Printed

VARIABLES calls, res, e, out,
          fail,     \* offset at which the writer fails (-1: never)
          ok        \* blocks of the calls which succeeded
vars == <<calls, res, e, out, fail, ok>>

Screen == [k |-> "lsd", w |-> 1, h |-> 1, flags |-> 128, bg |-> 0, ar |-> 0]
Pre1 == [k |-> "pre", v |-> <<56, 57, 97>>, lsd |-> Screen,
         gct |-> Some(<<1, 2, 3, 4, 5, 6>>), loop |-> None, com |-> <<>>]
Pre2 == [k |-> "pre", v |-> <<56, 55, 97>>, lsd |-> [Screen EXCEPT !.flags = 0],
         gct |-> None, loop |-> Some(LoopApp(258)),
         com |-> <<[k |-> "com", s |-> <<<<65>>>>], [k |-> "com", s |-> <<>>]>>]
Img1 == [k |-> "img", left |-> 0, top |-> 0, w |-> 1, h |-> 1, flags |-> 0]
Frame1 == [k |-> "frame", gce |-> None, img |-> Img1, lct |-> None, d |-> <<1>>]
Frame2 == [k |-> "frame", gce |-> Some(GceItem(9, 300, 1)),
           img |-> [Img1 EXCEPT !.flags = 192], lct |-> Some(<<9, 9, 9, 8, 8, 8>>),
           d |-> <<0>>]
Calls == {Pre1, Pre2, Frame1, Frame2, [k |-> "trl"]}

\* Writing with a fault: what is accepted, and whether all of it was
Write(bytes) ==
    LET room == IF fail < 0 THEN Len(bytes) ELSE fail - Len(out)
    IN IF room >= Len(bytes) THEN [ok |-> TRUE, out |-> out \o bytes]
       ELSE [ok |-> FALSE, out |-> out \o SubSeq(bytes, 1, room)]

Init == /\ calls = <<>> /\ res = <<>> /\ e = EncInit /\ out = <<>> /\ ok = <<>>
        /\ fail \in {-1} \cup Faults

Call(c) ==
    /\ Len(calls) < MaxCalls
    /\ calls' = Append(calls, c)
    /\ LET r == FrameCall(e, c)
           w == Write(FileBytes(r.blocks))
       IN IF r.res.k = "err"
          THEN res' = Append(res, r.res) /\ UNCHANGED <<e, out, ok>>
          ELSE IF w.ok
          THEN /\ res' = Append(res, OkItem) /\ e' = r.e /\ out' = w.out
               /\ ok' = ok \o r.blocks
          ELSE /\ res' = Append(res, IoItem) /\ out' = w.out
               /\ UNCHANGED <<e, ok>>
    /\ UNCHANGED fail

Next == (\E c \in Calls : Call(c)) \/ (Len(calls) = MaxCalls /\ UNCHANGED vars)

-----------------------------------------------------------------------------
Kinds == [i \in DOMAIN calls |-> calls[i].k]
Accepted == {i \in DOMAIN calls : res[i].k = "ok"}

\* One preamble first, then frames, then one trailer last (C13)
Order == /\ \A i \in Accepted : Kinds[i] = "pre" =>
                                    \A j \in Accepted : j >= i
         /\ \A i \in Accepted : Kinds[i] # "pre" =>
                                    \E j \in Accepted : j < i /\ Kinds[j] = "pre"
         /\ \A i \in Accepted : Kinds[i] = "trl" => \A j \in Accepted : j <= i
\* Nothing allowed is refused
Useful == fail < 0 =>
    \A i \in DOMAIN calls :
        i \notin Accepted =>
            \/ Kinds[i] = "pre" /\ \E j \in Accepted : j < i
            \/ Kinds[i] # "pre" /\ ~\E j \in Accepted : j < i
            \/ \E j \in Accepted : j < i /\ Kinds[j] = "trl"
\* The output is that of the accepted calls; with a fault, a prefix of it
\* and of the call which failed (C16)
Output == /\ fail < 0 => out = FileBytes(ok)
          /\ fail >= 0 => Len(out) <= fail
          /\ IsPrefix(FileBytes(ok), out)
          /\ Len(out) > Len(FileBytes(ok)) => Len(out) = fail
\* A complete file reads back as what was encoded
ReadsBack ==
    e.trl /\ fail < 0 =>
        BlockRuns(out, DefaultMax, BlockInit, <<>>) = {Append(ok, NoneItem)}

Emit == Printed /\ Len(calls) = MaxCalls =>
    PrintT(<<"SCN", ToJson([calls |-> calls, res |-> res])>>)
=============================================================================
