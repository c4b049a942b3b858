------------------------------ MODULE IoModel ------------------------------
(***************************************************************************)
(* Filling buffers from a reader (or emptying them into a writer) which    *)
(* moves any number of bytes at a time, is interrupted, or fails.          *)
(* The requests are those of a file with a header, a screen descriptor and *)
(* a trailer; the data may end early or fail at any offset.                *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS Requests, Chunks0, MaxTransfers, Limits

VARIABLES sched,   \* transfers so far; 0 is an interruption
          pos,     \* bytes moved
          i, got,  \* current request, bytes of it that have been moved
          fail,    \* offset of the failure (-1: none)
          end,     \* length of the data
          st       \* "run", "ok", "io" or "eof"
vars == <<sched, pos, i, got, fail, end, st>>

Reqs == <<6, 7, 1>>
Total == 14

Init == /\ sched = <<>> /\ pos = 0 /\ i = 1 /\ got = 0 /\ st = "run"
        /\ \/ fail = -1 /\ end \in Limits
           \/ fail \in Limits /\ end = Total

Want == Reqs[i] - got
Step(n) ==
    /\ st = "run" /\ Len(sched) < MaxTransfers
    /\ sched' = Append(sched, n)
    /\ IF n = 0 THEN UNCHANGED <<pos, i, got, st>>   \* interrupted: try again
       ELSE IF pos = fail THEN st' = "io" /\ UNCHANGED <<pos, i, got>>
       ELSE IF pos = end THEN st' = "eof" /\ UNCHANGED <<pos, i, got>>
       ELSE LET room == IF fail >= 0 THEN fail - pos ELSE end - pos
                m == MinOf(n, MinOf(Want, room))
            IN /\ pos' = pos + m
               /\ IF m < Want THEN got' = got + m /\ UNCHANGED <<i, st>>
                  ELSE /\ got' = 0 /\ i' = i + 1
                       /\ st' = IF i = Len(Reqs) THEN "ok" ELSE "run"
    /\ UNCHANGED <<fail, end>>
Next == (\E n \in Chunks0 : Step(n)) \/ (st # "run" /\ UNCHANGED vars)
        \/ (Len(sched) = MaxTransfers /\ UNCHANGED vars)

-----------------------------------------------------------------------------
Limit == IF fail >= 0 THEN fail ELSE end
WholeRequests == Cardinality({n \in 1..3 : Sum(SubSeq(Reqs, 1, n)) <= Limit})
\* How it ends depends on where the data ends, not on the transfers
Independent ==
    /\ st = "ok" => Limit >= Total
    /\ st = "io" => fail >= 0 /\ fail < Total /\ i - 1 = WholeRequests
                    /\ pos = fail
    /\ st = "eof" => fail < 0 /\ end < Total /\ i - 1 = WholeRequests
                     /\ pos = end
\* Never more than what was asked for
Exact == pos = Sum(SubSeq(Reqs, 1, i - 1)) + got /\ pos <= Total

-----------------------------------------------------------------------------
File == <<[k |-> "hdr", v |-> <<56, 57, 97>>],
          [k |-> "lsd", w |-> 258, h |-> 3, flags |-> 7, bg |-> 4, ar |-> 5],
          [k |-> "trl"]>>
Items == SubSeq(File, 1, i - 1)
         \o (CASE st = "ok" -> <<>>
               [] st = "io" -> <<ErrItem("Io")>>
               [] st = "eof" -> <<ErrItem("UnexpectedEndOfFile")>>)
         \o <<NoneItem>>
Emit == st # "run" =>
    PrintT(<<"SCN", ToJson([bytes |-> SubSeq(FileBytes(File), 1, end),
                            sched |-> sched, fail |-> fail,
                            items |-> Items, pos |-> pos])>>)
=============================================================================
