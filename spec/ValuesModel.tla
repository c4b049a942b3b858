----------------------------- MODULE ValuesModel ----------------------------
(***************************************************************************)
(* Every short sequence of sub-blocks added to each type of block, and     *)
(* every pair of some blocks: a block holds exactly the sub-blocks which   *)
(* could be stored, in order, and blocks are equal if all they hold is     *)
(* (C26).                                                                  *)
(***************************************************************************)
EXTENDS GifValues, Json

CONSTANT MaxAdds

VARIABLES kind, calls, b, obs
vars == <<kind, calls, b, obs>>

Long(n) == [i \in 1..n |-> i % 256]
Datas == {<<>>, <<0>>, <<7, 8>>, Long(255), Long(256)}
Kinds == {"pt", "com", "app", "unk"}

Subs == {<<>>, <<<<1>>>>, <<<<2>>>>, <<<<1>>, <<2>>>>, <<<<1, 2>>>>}
Blocks ==
    {[k |-> "hdr", v |-> v] : v \in {<<56, 55, 97>>, <<56, 57, 97>>}}
    \cup {[k |-> "lsd", w |-> w, h |-> h, flags |-> f, bg |-> 0, ar |-> a] :
          w \in {1, 2}, h \in {1, 2}, f \in {0, 128}, a \in {0, 1}}
    \cup {[k |-> k, c |-> c] : k \in {"gct", "lct"},
                               c \in {<<>>, <<1, 2, 3>>, <<1, 2, 4>>}}
    \cup {[k |-> k, s |-> s] : k \in {"pt", "com", "app"}, s \in Subs}
    \cup {[k |-> "unk", id |-> <<i>>, s |-> s] : i \in {1, 2}, s \in Subs}
    \cup {[k |-> "gce", flags |-> f, delay |-> d, tr |-> x] :
          f \in {0, 1}, d \in {0, 9}, x \in {0, 9}}
    \cup {[k |-> "img", left |-> x, top |-> y, w |-> 1, h |-> h, flags |-> f] :
          x \in {0, 1}, y \in {0, 1}, h \in {1, 2}, f \in {0, 64}}
    \cup {[k |-> "dat", d |-> d] : d \in {<<>>, <<0>>, <<1>>, <<0, 0>>}}
    \cup {[k |-> "trl"]}

Init == \/ /\ kind \in Kinds /\ calls = <<>> /\ b = SubInit
           /\ obs = <<SubShow(kind, b)>>
        \/ /\ kind = "pair" /\ b = SubInit
           /\ \E x, y \in Blocks : /\ calls = <<x, y>>
                                   /\ obs = <<PairShow(x, y)>>
Next == \/ /\ kind # "pair" /\ Len(calls) < MaxAdds
           /\ \E d \in Datas : /\ calls' = Append(calls, d)
                               /\ b' = SubAdd(b, d)
                               /\ obs' = Append(obs, SubShow(kind, b'))
           /\ UNCHANGED kind
        \/ (kind = "pair" \/ Len(calls) = MaxAdds) /\ UNCHANGED vars

-----------------------------------------------------------------------------
Holds == kind # "pair" =>
    b.s = SelectSeq(calls, LAMBDA d : d # <<>> /\ Len(d) < 256)
\* Equality is an equivalence which tells all blocks apart
Apart == kind = "pair" => (obs[1].eq = 1 <=> calls[1] = calls[2])

Emit == kind = "pair" \/ Len(calls) = MaxAdds =>
    PrintT(<<"SCN", ToJson([kind |-> kind, calls |-> calls, obs |-> obs])>>)
=============================================================================
