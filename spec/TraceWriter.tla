---------------------------- MODULE TraceWriter ----------------------------
(***************************************************************************)
(* Trace validation of encoding to an unreliable writer.  Each line of the *)
(* trace file is a run of one of the encoders, and a run of the same calls *)
(* with a writer that accepts everything at once:                          *)
(*   fail          offset at which the writer fails (-1: never)            *)
(*   what          its error                                               *)
(*   once          it fails only once; what follows the failed call is not *)
(*                 checked                                                 *)
(*   res, lens, out      results, output lengths, output                   *)
(*   rres, rlens, rout   the same of the other run                         *)
(***************************************************************************)
EXTENDS GifEncode, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, failed
T == Traces[t]

Init == t \in DOMAIN Traces /\ l = 1 /\ failed = FALSE

Before(i) == IF i = 1 THEN 0 ELSE T.rlens[i - 1]
\* The call needs a byte which the writer refuses
Hits(i) == T.fail >= 0 /\ Before(i) <= T.fail /\ T.fail < T.rlens[i]

\* No failure in reach: same result, and everything has been written
Call == /\ l <= Len(T.rres) /\ l <= Len(T.res) /\ ~failed /\ ~Hits(l)
        /\ Same(T.res[l], T.rres[l])
        /\ T.lens[l] = T.rlens[l]
        /\ failed' = FALSE
        /\ l' = l + 1 /\ UNCHANGED t

\* The writer fails during this call
Fails == /\ l <= Len(T.rres) /\ l <= Len(T.res) /\ ~failed /\ Hits(l)
         /\ Same(T.res[l], IoError(T.what))
         /\ T.lens[l] = T.fail
         /\ failed' = TRUE
         /\ l' = l + 1 /\ UNCHANGED t

\* After the failure nothing more is accepted, and nothing succeeds
Later == /\ l <= Len(T.rres) /\ l <= Len(T.res) /\ failed /\ ~T.once
         /\ T.res[l].k = "err"
         /\ T.lens[l] = T.fail
         /\ l' = l + 1 /\ UNCHANGED <<t, failed>>

\* (An encoder of steps writes on when it is dropped.)
Done == /\ l = Len(T.rres) + 1 \/ (failed /\ T.once)
        /\ LET n == IF T.fail < 0 THEN Len(T.rout)
                    ELSE MinOf(T.fail, Len(T.rout))
           IN IF T.once
              THEN Len(T.out) >= n /\ SubSeq(T.out, 1, n) = SubSeq(T.rout, 1, n)
              ELSE T.out = SubSeq(T.rout, 1, n)
        /\ UNCHANGED <<t, l, failed>>

Next == Call \/ Fails \/ Later \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
