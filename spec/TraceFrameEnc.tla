--------------------------- MODULE TraceFrameEnc ---------------------------
(***************************************************************************)
(* Trace validation of the frame encoder: calls ("pre", "frame", "trl"),   *)
(* their results, the output length after each, and the output.            *)
(***************************************************************************)
EXTENDS GifEncode, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, pos, e
T == Traces[t]

Init == t \in DOMAIN Traces /\ l = 1 /\ pos = 0 /\ e = EncInit

Call == /\ l <= Len(T.calls) /\ l <= Len(T.res)
        /\ LET r == FrameCall(e, T.calls[l])
           IN /\ Same(T.res[l], r.res)
              /\ BlocksEnd(T.out, pos, r.blocks) = T.lens[l]
              /\ e' = r.e
        /\ pos' = T.lens[l]
        /\ l' = l + 1
        /\ UNCHANGED t

\* Dropping the encoder writes nothing
Done == /\ l = Len(T.calls) + 1
        /\ Len(T.out) = pos
        /\ UNCHANGED <<t, l, pos, e>>

Next == Call \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
