---------------------------- MODULE TraceDecode ----------------------------
(***************************************************************************)
(* Trace validation for decoding.                                          *)
(*                                                                         *)
(* Each line of the trace file is one run of the real decoder:             *)
(*   iface  "blocks", "frames", "preframes", "steps" or "iter"             *)
(*   bytes  input;  max  size limit (-1: none)                             *)
(*   fail   offset at which the reader fails (-1: never)                   *)
(*   what   the reader's error (kind and number, <<>> if nothing special)  *)
(*   memkb  limit for the peak heap usage, in KB (-1: not checked)         *)
(*   items  what the iterator returned, one item for each call             *)
(*   ends   position of the reader after each item                         *)
(*   peak   peak heap usage in KB                                          *)
(* A run is accepted if the actions of the specification allow its items   *)
(* one after another.  If not, the state machine is stuck before the first *)
(* item it cannot explain, which TLC reports as a deadlock.                *)
(***************************************************************************)
EXTENDS GifSteps, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,  \* which run
          l,  \* next item
          s   \* state of the specification

T == Traces[t]

\* A failing reader delivers what comes before the failure, and an I/O error
\* where the data would otherwise just end
Input == IF T.fail >= 0 THEN SubSeq(T.bytes, 1, T.fail) ELSE T.bytes
Seen(item) == IF T.fail >= 0 /\ item.k = "err"
                 /\ item.e = "UnexpectedEndOfFile"
              THEN IoError(T.what) ELSE item

\* All steps, for the repeating iterator, and how far the reader may have been
\* consumed then: set of [l, pos]
RECURSIVE AllSteps(_, _, _, _)
AllSteps(B, max, st, acc) ==
    UNION { CASE r.item.k = "none" ->
                   {[l |-> LoopInit(acc, r.s.loop), pos |-> r.s.f.d.pos]}
              [] r.item.k = "err" ->
                   {[l |-> LoopInit(Append(acc, Seen(r.item)), None),
                     pos |-> Len(T.bytes)]}
              [] OTHER -> AllSteps(B, max, r.s, Append(acc, r.item))
          : r \in NextStep(B, max, st) }

\* Of the repeating iterator, all states are kept which explain the items so
\* far; the other ones have a single state
Start == CASE T.iface = "blocks" -> BlockInit
           [] T.iface = "frames" -> FramesInit
           [] T.iface = "preframes" -> FramesInit
           [] T.iface = "steps" -> StepsInit
           [] OTHER -> AllSteps(Input, T.max, StepsInit, <<>>)

\* Outcomes of the next call: set of [item, s, pos]; pos is how far the
\* reader may have been consumed
Call ==
    CASE T.iface = "blocks" ->
            {[item |-> r.item, s |-> r.d, pos |-> r.d.pos]
                : r \in NextBlock(Input, T.max, s)}
      [] T.iface = "frames" \/ (T.iface = "preframes" /\ l > T.npre) ->
            {[item |-> r.item, s |-> r.f, pos |-> r.f.d.pos]
                : r \in NextFrame(Input, T.max, s)}
      [] T.iface = "preframes" ->
            {[item |-> r.item, s |-> r.f, pos |-> r.f.d.pos]
                : r \in ReadPreamble(Input, T.max, s)}
      [] T.iface = "steps" ->
            {[item |-> r.item, s |-> r.s, pos |-> r.s.f.d.pos]
                : r \in NextStep(Input, T.max, s)}
      [] OTHER ->
            LET R == {[r |-> LoopNext(x.l), pos |-> x.pos] : x \in s}
            IN UNION {{[item |-> i, pos |-> p,
                        s |-> {[l |-> q.r.l, pos |-> p]
                                 : q \in {x \in R : /\ x.r.item = i
                                                    /\ x.pos = p}}]
                         : p \in {x.pos : x \in {y \in R : y.r.item = i}}}
                      : i \in {x.r.item : x \in R}}

\* Nothing behind the trailer is consumed.  The repeating iterator has read
\* the file when it returns the first item.  How far an error is noticed is
\* not specified.
ReaderOK(r) ==
    (r.item.k \in {"trl", "none"} \/ T.iface = "iter")
    /\ ~(l > 1 /\ T.items[l - 1].k = "err")
    => T.ends[l] <= r.pos

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ s = Start

Item == /\ l <= Len(T.items)
        /\ T.items[l].k # "more"
        /\ \E r \in Call : /\ Same(Seen(r.item), T.items[l])
                           /\ ReaderOK(r)
                           /\ s' = r.s
        /\ l' = l + 1
        /\ UNCHANGED t

\* The recording stopped; only the repeating iterator may go on that long
More == /\ l <= Len(T.items)
        /\ T.items[l].k = "more"
        /\ T.iface = "iter"
        /\ l' = l + 1
        /\ UNCHANGED <<t, s>>

MemoryOK == T.memkb < 0 \/ T.peak <= T.memkb

\* Recordings end with the end of the items, or with an error of the preamble
Complete == /\ T.items # <<>>
            /\ \/ T.items[Len(T.items)].k \in {"none", "more"}
               \/ T.iface = "preframes" /\ T.items[Len(T.items)].k = "err"

Done == /\ l = Len(T.items) + 1
        /\ Complete
        /\ MemoryOK
        /\ UNCHANGED <<t, l, s>>

Next == Item \/ More \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
