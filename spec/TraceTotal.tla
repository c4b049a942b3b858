----------------------------- MODULE TraceTotal -----------------------------
(***************************************************************************)
(* Trace validation of the shape of decoding, for any input: items, then   *)
(* at most one error, then the end.  Each line of the trace file:          *)
(*   iface  blocks, frames, steps or iter                                  *)
(*   n      length of the input                                            *)
(*   runs   what the iterator returned, as << <<kind, count>>, ... >> with *)
(*          kinds "ok", "err", "none", "more" (stopped by the recorder)    *)
(*   memkb  limit for the peak heap usage, in KB (-1: not checked)         *)
(*   peak   peak heap usage in KB                                          *)
(* Anything else (a panic, a hang) has no action.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, st
T == Traces[t]
Kind == T.runs[l][1]
Count == T.runs[l][2]
Step(next) == l' = l + 1 /\ st' = next /\ UNCHANGED t

Init == t \in DOMAIN Traces /\ l = 1 /\ st = "run"

\* Every item takes at least one byte of the input; only repetition can
\* return more
Ok == /\ l <= Len(T.runs) /\ st = "run" /\ Kind = "ok"
      /\ T.iface = "iter" \/ Count <= T.n
      /\ Step("run")
Err == /\ l <= Len(T.runs) /\ st = "run" /\ Kind = "err" /\ Count = 1
       /\ Step("failed")
End == /\ l <= Len(T.runs) /\ st \in {"run", "failed"} /\ Kind = "none"
       /\ Step("end")
More == /\ l <= Len(T.runs) /\ st = "run" /\ Kind = "more" /\ T.iface = "iter"
        /\ Step("end")
Done == /\ l = Len(T.runs) + 1 /\ st = "end"
        /\ T.memkb < 0 \/ T.peak <= T.memkb
        /\ UNCHANGED <<t, l, st>>

Next == Ok \/ Err \/ End \/ More \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
