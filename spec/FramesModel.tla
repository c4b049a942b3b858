---------------------------- MODULE FramesModel ----------------------------
(***************************************************************************)
(* Grouping of blocks: the automaton of GifFrames against a declarative    *)
(* definition, for every sequence of blocks from a small alphabet.         *)
(* An image stands for descriptor, optional local color table and data.    *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS MaxUnits, Printed

VARIABLES us, ended
vars == <<us, ended>>

\* Numbered units, so that every one is different from all others
Units(n) ==
    {<<GceItem(1, n, n)>>, <<[k |-> "pt", s |-> <<<<n>>>>]>>,
     <<[k |-> "com", s |-> <<<<n>>>>]>>, <<LoopApp(n)>>,
     <<[k |-> "app", s |-> <<<<n>>>>]>>,
     <<[k |-> "img", left |-> 0, top |-> 0, w |-> 1, h |-> 1, flags |-> 0],
       [k |-> "dat", d |-> <<n % 4>>]>>,
     <<[k |-> "img", left |-> 0, top |-> 0, w |-> 1, h |-> 1, flags |-> 128],
       [k |-> "lct", c |-> <<n, n, n, n, n, n>>],
       [k |-> "dat", d |-> <<n % 2>>]>>}

Prefix == <<[k |-> "hdr", v |-> <<56, 55, 97>>],
            [k |-> "lsd", w |-> 3, h |-> 2, flags |-> 128, bg |-> 1, ar |-> 2],
            [k |-> "gct", c |-> <<1, 2, 3, 4, 5, 6>>]>>

Blocks == Prefix \o Flatten(us) \o (IF ended THEN <<[k |-> "trl"]>> ELSE <<>>)

Init == us = <<>> /\ ended = FALSE
Next == \/ /\ ~ended /\ Len(us) < MaxUnits
           /\ \E u \in Units(Len(us) + 1) : us' = Append(us, u)
           /\ UNCHANGED ended
        \/ ~ended /\ ended' = TRUE /\ UNCHANGED us
        \/ ended /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Declarative definition over units

IsKind(i, kinds) == us[i][1].k \in kinds
\* Graphic controls which belong to unit i: those since the last unit that
\* used one up
Controls(i) ==
    {j \in 1..i - 1 : /\ IsKind(j, {"gce"})
                      /\ \A m \in j + 1..i - 1 : ~IsKind(m, {"img", "pt"})}
Twice(n) == \E i \in 1..n : IsKind(i, {"gce"}) /\ Controls(i) # {}
\* First unit at which grouping fails (or behind the last)
Failing == IF Twice(Len(us))
           THEN CHOOSE n \in 1..Len(us) : Twice(n) /\ ~Twice(n - 1)
           ELSE Len(us) + 1
ImageUnits == SelectSeq([i \in 1..Failing - 1 |-> i],
                        LAMBDA i : IsKind(i, {"img"}))
FrameOf(i) ==
    LET c == Controls(i)
        u == us[i]
    IN FrameItem(IF c = {} THEN None ELSE <<us[CHOOSE j \in c : TRUE][1]>>,
                 u[1], IF Len(u) = 3 THEN Some(u[2].c) ELSE None, u[Len(u)].d)
ExpectedFrames ==
    [n \in DOMAIN ImageUnits |-> FrameOf(ImageUnits[n])]
    \o (IF Failing <= Len(us) THEN <<ErrItem("InvalidBlockSequence")>>
        ELSE <<>>)
    \o <<NoneItem>>

\* Units before the first frame block
Before == LET n == {i \in DOMAIN us : IsKind(i, {"gce", "img"})}
          IN IF n = {} THEN Len(us) + 1 ELSE CHOOSE i \in n :
                                                 \A j \in n : i <= j
Selected(Test(_)) == SelectSeq([i \in 1..Before - 1 |-> us[i][1]], Test)
Loops == Selected(LAMBDA b : b.k = "app" /\ LoopCount(b.s) # None)
ExpectedPreamble ==
    IF Before > Len(us) THEN ErrItem("InvalidBlockSequence")
    ELSE PreambleItem([v |-> <<56, 55, 97>>, lsd |-> Prefix[2],
                       gct |-> Some(Prefix[3].c),
                       loop |-> IF Loops = <<>> THEN None
                                ELSE Some(Loops[Len(Loops)]),
                       com |-> Selected(LAMBDA b : b.k = "com")])

B == FileBytes(Blocks)
FramesRight ==
    ended => FrameRuns(B, DefaultMax, FramesInit, <<>>) = {ExpectedFrames}
PreambleRight ==
    ended => {r.item : r \in ReadPreamble(B, DefaultMax, FramesInit)}
             = {ExpectedPreamble}
\* Asking for the preamble first does not change the frames
PreambleNeutral ==
    ended => \A r \in ReadPreamble(B, DefaultMax, FramesInit) :
                r.item.k = "pre" =>
                    FrameRuns(B, DefaultMax, r.f, <<>>) = {ExpectedFrames}

Emit == ended /\ Printed =>
    PrintT(<<"SCN", ToJson([bytes |-> B, frames |-> ExpectedFrames,
                            pre |-> ExpectedPreamble])>>)
=============================================================================
