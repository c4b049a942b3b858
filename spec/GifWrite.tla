------------------------------ MODULE GifWrite ------------------------------
(***************************************************************************)
(* Complete files from blocks, for models which print behaviours.  Image   *)
(* data is encoded with literal codes only, which is one of many ways.     *)
(***************************************************************************)
EXTENDS GifSteps, Json

EncCodes(data, min) ==
    LET Put(a, c) == [codes |-> Append(a.codes, <<c, a.s.w>>),
                      s |-> LzwCode(a.s, c, 0)]
        start == Put([codes |-> <<>>, s |-> LzwInit(min)], ClearCode(min))
    IN Put(FoldLeft(Put, start, data), EndCode(min)).codes

RECURSIVE Chunks(_)
Chunks(b) == IF b = <<>> THEN <<>>
             ELSE LET n == MinOf(255, Len(b))
                  IN <<SubSeq(b, 1, n)>> \o Chunks(SubSeq(b, n + 1, Len(b)))

MinFor(data) == LET m == MaxIn(data)
                IN CHOOSE n \in 2..8 : m < 2^n /\ (n = 2 \/ m >= 2^(n - 1))

EncData(data) == LET min == MinFor(data)
                 IN <<min>> \o LayoutSubs(Chunks(LzwPack(EncCodes(data, min))))

BlockBytes(b) == IF b.k = "dat" THEN EncData(b.d) ELSE Layout(b)
FileBytes(bs) == Flatten([i \in DOMAIN bs |-> BlockBytes(bs[i])])

\* All items an iterator can return for a file (set of sequences, each up to
\* and including the final "none")
RECURSIVE BlockRuns(_, _, _, _)
BlockRuns(B, max, d, acc) ==
    UNION { IF r.item.k = "none" THEN {Append(acc, r.item)}
            ELSE BlockRuns(B, max, r.d, Append(acc, r.item))
          : r \in NextBlock(B, max, d) }
RECURSIVE FrameRuns(_, _, _, _)
FrameRuns(B, max, f, acc) ==
    UNION { IF r.item.k = "none" THEN {Append(acc, r.item)}
            ELSE FrameRuns(B, max, r.f, Append(acc, r.item))
          : r \in NextFrame(B, max, f) }
RECURSIVE StepRuns(_, _, _, _)
StepRuns(B, max, s, acc) ==
    UNION { IF r.item.k = "none" THEN {Append(acc, r.item)}
            ELSE StepRuns(B, max, r.s, Append(acc, r.item))
          : r \in NextStep(B, max, s) }

DefaultMax == 33554432
=============================================================================
