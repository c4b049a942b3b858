---------------------------- MODULE StreamModel ----------------------------
(***************************************************************************)
(* Every sequence of blocks the GIF grammar allows, from a small alphabet, *)
(* up to a length; the bytes of the file and of every prefix of it are     *)
(* given to the block reader of the specification.                         *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS MaxBlocks, MaxImages, CheckCuts

VARIABLES bs, cut
vars == <<bs, cut>>

Hdr == {[k |-> "hdr", v |-> <<56, c, 97>>] : c \in {55, 57}}
Lsd == {[k |-> "lsd", w |-> w, h |-> 513, flags |-> f, bg |-> 7, ar |-> 49]
            : w \in {1, 258}, f \in {7, 128, 249}}
Exts == {[k |-> "com", s |-> <<>>], [k |-> "com", s |-> <<<<59>>, <<44, 0>>>>],
         [k |-> "app", s |-> <<<<1>>>>], LoopApp(258),
         [k |-> "pt", s |-> <<<<33>>>>], [k |-> "unk", id |-> <<59>>, s |-> <<>>],
         [k |-> "unk", id |-> <<0>>, s |-> <<<<0>>>>],
         GceItem(255, 513, 5)}
Img == {[k |-> "img", left |-> 3, top |-> 772, w |-> 2, h |-> 1, flags |-> f]
            : f \in {71, 128}}
Dat == {[k |-> "dat", d |-> <<0, 1>>], [k |-> "dat", d |-> <<200, 3>>]}

TableOf(kind, flags) ==
    [k |-> kind, c |-> [i \in 1..TableBytes(flags) |-> (7 * i) % 256]]

Images == Cardinality({i \in DOMAIN bs : bs[i].k = "img"})
Free == /\ Len(bs) >= 2
        /\ \/ Last(bs).k \in {"gct", "com", "app", "pt", "unk", "gce", "dat"}
           \/ Last(bs).k = "lsd" /\ TableBytes(Last(bs).flags) = 0

Allowed ==
    IF bs = <<>> THEN Hdr
    ELSE CASE Last(bs).k = "hdr" -> Lsd
           [] Last(bs).k = "lsd" /\ ~Free -> {TableOf("gct", Last(bs).flags)}
           [] Last(bs).k = "img" -> IF TableBytes(Last(bs).flags) > 0
                                    THEN {TableOf("lct", Last(bs).flags)}
                                    ELSE Dat
           [] Last(bs).k = "lct" -> Dat
           [] Free -> Exts \cup {[k |-> "trl"]}
                      \cup (IF Images < MaxImages THEN Img ELSE {})
           [] OTHER -> {}

Init == bs = <<>> /\ cut = -1
Add == /\ cut < 0 /\ Len(bs) < MaxBlocks
       /\ \E b \in Allowed : bs' = Append(bs, b)
       /\ UNCHANGED cut
\* Give the file, or a prefix of it, to the reader
Read == /\ cut < 0 /\ bs # <<>>
        /\ cut' \in IF CheckCuts THEN 0..Len(FileBytes(bs))
                    ELSE {Len(FileBytes(bs))}
        /\ UNCHANGED bs
Next == Add \/ Read \/ (cut >= 0 /\ UNCHANGED vars)

-----------------------------------------------------------------------------
Runs == BlockRuns(SubSeq(FileBytes(bs), 1, cut), DefaultMax, BlockInit, <<>>)

\* The blocks which end at or before the cut, in order
RECURSIVE Whole(_, _)
Whole(seq, n) == IF seq = <<>> THEN <<>>
                 ELSE LET m == Len(BlockBytes(Head(seq)))
                      IN IF m > n THEN <<>>
                         ELSE <<Head(seq)>> \o Whole(Tail(seq), n - m)

Complete == bs # <<>> /\ Last(bs).k = "trl" /\ cut = Len(FileBytes(bs))

\* What is written is read back; a cut file gives its whole blocks, then one
\* error, then nothing (C06, C07, C20)
ReadBack ==
    cut >= 0 =>
        Runs = {Whole(bs, cut)
                \o (IF Complete THEN <<>>
                    ELSE <<ErrItem("UnexpectedEndOfFile")>>)
                \o <<NoneItem>>}

\* At most one error, and then the end; no more items than bytes (C05)
Total ==
    cut >= 0 =>
        \A run \in Runs :
            /\ Len(run) <= cut + 2
            /\ \A i \in DOMAIN run : run[i].k = "err" => i = Len(run) - 1

Emit == cut = Len(FileBytes(bs)) =>
            PrintT(<<"SCN", ToJson([bytes |-> FileBytes(bs), runs |-> Runs])>>)
EmitCuts == cut >= 0 =>
    PrintT(<<"SCN", ToJson([bytes |-> SubSeq(FileBytes(bs), 1, cut),
                            runs |-> Runs])>>)
=============================================================================
