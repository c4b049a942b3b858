---------------------------- MODULE TraceFields ----------------------------
(***************************************************************************)
(* Trace validation of setters and getters.  Each line of the trace file:  *)
(*   type   lsd, img, gce, cfg, app, tables or step                        *)
(*   loop   loop count of the constructor (app only; optional value)       *)
(*   calls  setter calls                                                   *)
(*   obs    all getters, at first and after each call                      *)
(***************************************************************************)
EXTENDS GifFields, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, b
T == Traces[t]

Seen(o) == l <= Len(T.obs) /\ T.obs[l] = o /\ l' = l + 1

Init == t \in DOMAIN Traces /\ l = 1 /\ b = FieldInit(T.type, T.loop)

Start == /\ l = 1
         /\ Seen(FieldShow(T.type, b))
         /\ UNCHANGED <<t, b>>
Call == /\ l > 1 /\ l <= Len(T.calls) + 1
        /\ b' = FieldSet(T.type, b, T.calls[l - 1])
        /\ Seen(FieldShow(T.type, b'))
        /\ UNCHANGED t
Done == l = Len(T.calls) + 2 /\ Len(T.obs) = Len(T.calls) + 1
        /\ UNCHANGED <<t, l, b>>
Next == Start \/ Call \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
