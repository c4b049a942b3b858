--------------------------- MODULE TraceTranscode ---------------------------
(***************************************************************************)
(* Trace validation of decoding and encoding again.                        *)
(*   level  "blocks" or "frames"                                           *)
(*   bytes  a file (nothing is said unless it is valid)                    *)
(*   res    result;  out  output                                           *)
(*   again  output of doing the same with the output                       *)
(***************************************************************************)
EXTENDS GifWrite, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
T == Traces[t]

Pres(B) == {r.item : r \in ReadPreamble(B, DefaultMax, FramesInit)}
Blks(B) == BlockRuns(B, DefaultMax, BlockInit, <<>>)
Frms(B) == FrameRuns(B, DefaultMax, FramesInit, <<>>)
Stps(B) == StepRuns(B, DefaultMax, StepsInit, <<>>)

Init == t \in DOMAIN Traces /\ l = 1

Valid == /\ \A run \in Blks(T.bytes) : \A i \in DOMAIN run : run[i].k # "err"
         /\ T.level = "frames" =>
                \A run \in Frms(T.bytes) : \A i \in DOMAIN run : run[i].k # "err"

Invalid == l = 1 /\ ~Valid /\ l' = 3 /\ UNCHANGED t
Kept == /\ l = 1 /\ Valid /\ T.res.k = "ok"
        /\ IF T.level = "blocks" THEN Blks(T.out) = Blks(T.bytes)
           ELSE /\ Pres(T.out) = Pres(T.bytes)
                /\ Frms(T.out) = Frms(T.bytes)
                /\ Stps(T.out) = Stps(T.bytes)
        /\ l' = 2 /\ UNCHANGED t
Stable == /\ l = 2 /\ T.again = T.out
          /\ l' = 3 /\ UNCHANGED t
Done == l = 3 /\ UNCHANGED <<t, l>>

Next == Invalid \/ Kept \/ Stable \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
