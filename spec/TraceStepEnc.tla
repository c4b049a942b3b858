---------------------------- MODULE TraceStepEnc ----------------------------
(***************************************************************************)
(* Trace validation of the step encoder.  Each line of the trace file:     *)
(*   calls  steps; loop, gct: settings of the encoder (optional values)    *)
(*   res, lens, out   result and output length of each call, output after  *)
(*                    the encoder has been dropped                         *)
(*   back   steps which the real decoder returned for the output           *)
(*                                                                         *)
(* The output is judged by what the specification's own decoder makes of   *)
(* it, so any choice of color tables and of LZW codes is accepted.         *)
(***************************************************************************)
EXTENDS GifWrite, GifEncode, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, acc
T == Traces[t]

Size == IF acc = <<>> THEN None ELSE Some(<<acc[1].w, acc[1].h>>)

Init == t \in DOMAIN Traces /\ l = 1 /\ acc = <<>>

Call ==
    /\ l <= Len(T.calls) /\ l <= Len(T.res)
    /\ LET c == T.calls[l]
           errs == StepErrors(c, Size)
       IN IF errs = {}
          THEN /\ T.res[l].k = "ok"
               /\ acc' = Append(acc, c)
          ELSE /\ \E e \in errs : Same(T.res[l], ErrItem(e))
               \* a refused step writes nothing
               /\ T.lens[l] = IF l = 1 THEN 0 ELSE T.lens[l - 1]
               /\ UNCHANGED acc
    /\ l' = l + 1
    /\ UNCHANGED t

-----------------------------------------------------------------------------
Expected == Append(ComposeSteps(acc), NoneItem)
SameItems(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])

\* What the output means: the preamble's loop count, frames' graphic control
FileLoop == {IF r.item.k # "pre" THEN <<r.item>>
             ELSE IF r.item.loop = None THEN None
             ELSE LoopCount(r.item.loop[1].s)
             : r \in ReadPreamble(T.out, DefaultMax, FramesInit)}
FileControls == {[i \in 1..Len(run) - 1 |-> run[i].gce]
                 : run \in FrameRuns(T.out, DefaultMax, FramesInit, <<>>)}

\* Where the last block ends
RECURSIVE FileEnd(_)
FileEnd(d) ==
    LET r == CHOOSE x \in NextBlock(T.out, DefaultMax, d) : TRUE
    IN IF r.item.k \in {"trl", "err", "none"} THEN r.d.pos ELSE FileEnd(r.d)

Done ==
    /\ l = Len(T.calls) + 1
    /\ IF acc = <<>> THEN T.out = <<>>
       ELSE /\ SameItems(T.back, Expected)
            /\ \E run \in StepRuns(T.out, DefaultMax, StepsInit, <<>>) :
                   SameItems(run, Expected)
            /\ FileLoop = {T.loop}
            /\ FileControls = {[i \in DOMAIN acc |->
                                   StepControl(Settings(acc[i].ops))]}
            \* complete: ends with the trailer, and nothing follows
            /\ \A run \in BlockRuns(T.out, DefaultMax, BlockInit, <<>>) :
                   run[Len(run) - 1].k = "trl"
            /\ FileEnd(BlockInit) = Len(T.out)
    /\ UNCHANGED <<t, l, acc>>

Next == Call \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
