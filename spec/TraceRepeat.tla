---------------------------- MODULE TraceRepeat ----------------------------
(***************************************************************************)
(* Trace validation of very long animations, in which the same image comes *)
(* many times in a row.  Each line of the trace file:                      *)
(*   iface   "steps" or "iter"                                             *)
(*   bytes   the file with each image only once                            *)
(*   counts  how often each image comes in the real input                  *)
(*   runs    what the iterator returned: << <<item, count>>, ... >>, equal *)
(*           items in a row are counted                                    *)
(* Every image is opaque and as large as the screen, so repeating it gives *)
(* the same step again; the next one, and the first one, differ.           *)
(***************************************************************************)
EXTENDS GifSteps, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, s
T == Traces[t]

RECURSIVE AllSteps(_, _)
AllSteps(st, acc) ==
    LET r == CHOOSE x \in NextStep(T.bytes, -1, st) : TRUE
    IN IF r.item.k = "step" THEN AllSteps(r.s, Append(acc, r.item))
       ELSE LoopInit(IF r.item.k = "err" THEN Append(acc, r.item) ELSE acc,
                     IF T.iface = "iter" THEN r.s.loop ELSE None)

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ s = AllSteps(StepsInit, <<>>)

Run == /\ l <= Len(T.runs)
       /\ T.runs[l][1].k # "more"
       /\ LET r == LoopNext(s)
              n == IF r.item.k = "step" THEN T.counts[r.l.n] ELSE 1
              cut == l < Len(T.runs) /\ T.runs[l + 1][1].k = "more"
          IN /\ Same(r.item, T.runs[l][1])
             /\ T.runs[l][2] = n \/ (cut /\ T.runs[l][2] < n)
             /\ s' = r.l
       /\ l' = l + 1
       /\ UNCHANGED t

\* The recording stops only in an endless repetition
More == /\ l = Len(T.runs)
        /\ T.runs[l][1].k = "more"
        /\ s.loop = Some(0)
        /\ l' = l + 1
        /\ UNCHANGED <<t, s>>

Done == /\ l = Len(T.runs) + 1
        /\ l > 1 /\ T.runs[l - 1][1].k \in {"none", "more"}
        /\ UNCHANGED <<t, l, s>>

Next == Run \/ More \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
