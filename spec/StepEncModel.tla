---------------------------- MODULE StepEncModel ----------------------------
(***************************************************************************)
(* The step encoder: a way to write steps as a file, checked against the   *)
(* meaning of steps (ComposeSteps) for every short sequence of steps from  *)
(* a small alphabet, with and without global color table and loop count.   *)
(***************************************************************************)
EXTENDS GifWrite, GifEncode

CONSTANTS MaxSteps, Loops, Rich

VARIABLES sts, gct, loop
vars == <<sts, gct, loop>>

PalA == <<1, 2, 3, 4, 5, 6>>
PalB == <<9, 8, 7, 6, 5, 4, 3, 2, 1>>
OpsSet == {<<>>, <<<<"tr", <<0>>>>>>,
           <<<<"tr", <<1>>>>, <<"disp", 3>>>>,
           <<<<"disp", 2>>, <<"delay", <<300>>>>>>}
          \cup (IF Rich THEN {<<<<"tr", <<0>>>>, <<"disp", 2>>>>,
                              <<<<"tr", <<1>>>>, <<"tr", <<>>>>>>} ELSE {})
Steps == {[w |-> 2, h |-> 1, px |-> px, pal |-> pal, ops |-> ops]
            : px \in [1..2 -> 0..1], pal \in {PalA, PalB}, ops \in OpsSet}
         \cup {[w |-> 1, h |-> 2, px |-> <<0, 1>>, pal |-> PalA, ops |-> <<>>]}

Init == sts = <<>> /\ gct \in {None, Some(PalA)}
        /\ loop \in {None} \cup {Some(n) : n \in Loops}
Next == \/ /\ Len(sts) < MaxSteps
           /\ \E s \in Steps : sts' = Append(sts, s)
           /\ UNCHANGED <<gct, loop>>
        \/ Len(sts) = MaxSteps /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Which steps are accepted: those of the size of the first
Accepted == SelectSeq(sts, LAMBDA s : s.w = sts[1].w /\ s.h = sts[1].h)
Results == [i \in DOMAIN sts |->
              IF sts[i].w = sts[1].w /\ sts[i].h = sts[1].h THEN OkItem
              ELSE ErrItem("InvalidRasterDimensions")]

Global == PaletteTable(IF gct # None THEN gct[1] ELSE sts[1].pal)
Bits(tbl) == CHOOSE n \in 0..7 : 3 * 2^(n + 1) = Len(tbl)
StepBlocks(s) ==
    LET tbl == PaletteTable(s.pal)
        fr == StepFrame(s)
    IN IF tbl = Global
       THEN fr.gce \o <<fr.img, [k |-> "dat", d |-> s.px]>>
       ELSE fr.gce \o <<[fr.img EXCEPT !.flags = 128 + Bits(tbl)],
                        [k |-> "lct", c |-> tbl], [k |-> "dat", d |-> s.px]>>
Blocks ==
    <<HeaderBlock(<<56, 57, 97>>),
      [k |-> "lsd", w |-> sts[1].w, h |-> sts[1].h,
       flags |-> 128 + 17 * Bits(Global), bg |-> 0, ar |-> 0],
      [k |-> "gct", c |-> Global]>>
    \o (IF loop = None THEN <<>> ELSE <<LoopApp(loop[1])>>)
    \o Flatten([i \in DOMAIN Accepted |-> StepBlocks(Accepted[i])])
    \o <<[k |-> "trl"]>>

Survives == sts # <<>> =>
    StepRuns(FileBytes(Blocks), DefaultMax, StepsInit, <<>>)
    = {Append(ComposeSteps(Accepted), NoneItem)}

Emit == sts # <<>> =>
    PrintT(<<"SCN", ToJson([calls |-> sts, gct |-> gct, loop |-> loop,
                            res |-> Results,
                            back |-> Append(ComposeSteps(Accepted),
                                            NoneItem)])>>)
=============================================================================
