----------------------------- MODULE TraceValues ----------------------------
(***************************************************************************)
(* Trace validation of values.  Each line of the trace file:               *)
(*   type   sub, tables, pair or errors                                    *)
(*   kind   pt, com, app or unk (sub only)                                 *)
(*   calls  sub-blocks to add; bytes of tables; two blocks; errors         *)
(*   obs    what was seen (sub: at first and after each call; pair: once)  *)
(***************************************************************************)
EXTENDS GifValues, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, b
T == Traces[t]

Init == t \in DOMAIN Traces /\ l = 1 /\ b = SubInit

Seen(o) == l <= Len(T.obs) /\ T.obs[l] = o /\ l' = l + 1 /\ UNCHANGED t

Start == /\ T.type = "sub" /\ l = 1
         /\ Seen(SubShow(T.kind, b)) /\ UNCHANGED b
Add == /\ T.type = "sub" /\ l > 1 /\ l <= Len(T.calls) + 1
       /\ b' = SubAdd(b, T.calls[l - 1])
       /\ Seen(SubShow(T.kind, b'))
Table == /\ T.type = "tables" /\ l <= Len(T.calls)
         /\ Seen(TableShow(T.calls[l])) /\ UNCHANGED b
Pair == /\ T.type = "pair" /\ l = 1
        /\ Seen(PairShow(T.calls[1], T.calls[2])) /\ UNCHANGED b
Errors == /\ T.type = "errors" /\ l = 1
          /\ ErrorsRight(T.calls, T.obs)
          /\ l' = Len(T.obs) + 1 /\ UNCHANGED <<t, b>>
Done == /\ l > 1 /\ l = Len(T.obs) + 1
        /\ Len(T.obs) = CASE T.type = "sub" -> Len(T.calls) + 1
                          [] T.type = "pair" -> 1
                          [] OTHER -> Len(T.calls)
        /\ UNCHANGED <<t, l, b>>
Next == Start \/ Add \/ Table \/ Pair \/ Errors \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
