----------------------------- MODULE TracePipe -----------------------------
(***************************************************************************)
(* Trace validation for decoding from a pipe: which data had arrived when  *)
(* an item was returned, and which data the decoder waited for.            *)
(*                                                                         *)
(* Each line of the trace file is one run of the real decoder:             *)
(*   iface  "blocks", "frames", "preframes" or "steps"                     *)
(*   bytes  one or more files;  max  size limit (-1: none)                 *)
(*   ev     events in order:                                               *)
(*            [k: "arr", n]  the decoder asked for more than had arrived;  *)
(*                           then there were n bytes                       *)
(*            [k: "new"]     another decoder was put on the same reader    *)
(*            others         items                                         *)
(*   pos    position of the reader after each event                        *)
(* An item must be returned as soon as its bytes are there: an arrival is  *)
(* allowed only if the specification has nothing to return without it.     *)
(* And when it is returned, nothing behind it has been consumed.           *)
(***************************************************************************)
EXTENDS GifSteps, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,  \* which run
          l,  \* next event
          a,  \* bytes which have arrived
          n,  \* items of this decoder
          s   \* state of the specification

T == Traces[t]
Ev == T.ev[l]

\* A decoder which begins behind p bytes
Start(p) == LET d == [BlockInit EXCEPT !.pos = p]
                f == [FramesInit EXCEPT !.d = d]
            IN CASE T.iface = "blocks" -> d
                 [] T.iface = "steps" -> [StepsInit EXCEPT !.f = f]
                 [] OTHER -> f
Pos(x) == CASE T.iface = "blocks" -> x.pos
            [] T.iface = "steps" -> x.f.d.pos
            [] OTHER -> x.d.pos

\* Outcomes of the next call if m bytes are all there is: set of [item, s]
Call(m) ==
    LET B == SubSeq(T.bytes, 1, m)
    IN CASE T.iface = "blocks" -> {[item |-> r.item, s |-> r.d]
                                      : r \in NextBlock(B, T.max, s)}
         [] T.iface = "steps" -> NextStep(B, T.max, s)
         [] T.iface = "preframes" /\ n = 0 ->
                {[item |-> r.item, s |-> r.f] : r \in ReadPreamble(B, T.max, s)}
         [] OTHER -> {[item |-> r.item, s |-> r.f]
                          : r \in NextFrame(B, T.max, s)}

Short(item) == item.k = "err" /\ item.e = "UnexpectedEndOfFile"

\* How far an error is noticed is not specified
Failed == Ev.k = "err" \/ (l > 1 /\ T.ev[l - 1].k = "err")

Init == /\ t \in DOMAIN Traces
        /\ l = 1 /\ a = 0 /\ n = 0
        /\ s = Start(0)

Arrive == /\ l <= Len(T.ev) /\ Ev.k = "arr"
          /\ \E r \in Call(a) : Short(r.item)
          /\ a' = Ev.n /\ l' = l + 1
          /\ UNCHANGED <<t, n, s>>

\* An error may be noticed before everything has arrived
Item == /\ l <= Len(T.ev) /\ Ev.k \notin {"arr", "new"}
        /\ LET m == IF Ev.k = "err" THEN Len(T.bytes) ELSE a
           IN \E r \in Call(m) : /\ Same(r.item, Ev)
                                 /\ Short(Ev) => a = Len(T.bytes)
                                 /\ Failed \/ T.pos[l] <= Pos(r.s)
                                 /\ s' = r.s
        /\ l' = l + 1 /\ n' = n + 1
        /\ UNCHANGED <<t, a>>

Another == /\ l <= Len(T.ev) /\ Ev.k = "new"
           /\ l > 1 /\ T.ev[l - 1].k = "none"
           /\ s' = Start(Pos(s)) /\ n' = 0
           /\ l' = l + 1
           /\ UNCHANGED <<t, a>>

Done == /\ l = Len(T.ev) + 1
        /\ Len(T.ev) > 0 /\ T.ev[l - 1].k \in {"none", "err"}
        /\ UNCHANGED <<t, l, a, n, s>>

Next == Arrive \/ Item \/ Another \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
