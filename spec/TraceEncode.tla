---------------------------- MODULE TraceEncode ----------------------------
(***************************************************************************)
(* Trace validation of the block encoder.  Each line of the trace file:    *)
(*   calls  blocks which were encoded                                      *)
(*   res    result of each call                                            *)
(*   lens   length of the output after each call                           *)
(*   out    output                                                         *)
(*   back   items which the real decoder returned for the output           *)
(*   file   1 if the blocks are a whole file, so that back must equal them *)
(*   strict 1 if image data must be readable for every decoder (C02),      *)
(*          2 if it must be compressed (C25)                               *)
(***************************************************************************)
EXTENDS GifEncode, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, pos
T == Traces[t]

Verdict == DataVerdict(SubSeq(T.out, pos + 1, T.lens[l]), T.calls[l].d)

Init == t \in DOMAIN Traces /\ l = 1 /\ pos = 0

\* The block has been written in full, and nothing else
Call == /\ l <= Len(T.calls) /\ l <= Len(T.res)
        /\ T.res[l].k = "ok"
        /\ \/ /\ T.strict = 2
              /\ T.calls[l].k = "dat" =>
                     Compressed(SubSeq(T.out, pos + 1, T.lens[l]),
                                T.calls[l].d)
           \/ T.strict = 0 /\ BlockEnd(T.out, pos, T.calls[l]) = T.lens[l]
           \/ /\ T.strict = 1
              /\ IF T.calls[l].k = "dat"
                 THEN \/ Verdict = "ok"
                      \/ Verdict = "cut" /\ PrintT(<<"CUT", t>>)
                 ELSE BlockEnd(T.out, pos, T.calls[l]) = T.lens[l]
        /\ pos' = T.lens[l]
        /\ l' = l + 1
        /\ UNCHANGED t

Back == Append(T.calls, NoneItem)
Done == /\ l = Len(T.calls) + 1
        /\ Len(T.out) = pos
        /\ \/ T.file = 0
           \/ /\ Len(T.back) = Len(Back)
              /\ \A i \in DOMAIN Back : Same(T.back[i], Back[i])
        /\ UNCHANGED <<t, l, pos>>

Next == Call \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
