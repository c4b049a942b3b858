--------------------------- MODULE SettingsModel ---------------------------
(***************************************************************************)
(* Settings of a step: every sequence of builder calls up to a length.     *)
(***************************************************************************)
EXTENDS GifFields, Json

CONSTANT MaxCalls

VARIABLES ops, ctl
vars == <<ops, ctl>>

Ops == {<<"disp", n>> : n \in {0, 1, 2, 3, 4}}
       \cup {<<"tr", v>> : v \in {None, <<0>>, <<1>>, <<255>>}}
       \cup {<<"delay", v>> : v \in {None, <<0>>, <<7>>, <<65535>>}}

Init == ops = <<>> /\ ctl = StepDefault
Next == \/ /\ Len(ops) < MaxCalls
           /\ \E o \in Ops : ops' = Append(ops, o) /\ ctl' = StepSet(ctl, o)
        \/ Len(ops) = MaxCalls /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* The last value set for each name, whatever came between
LastOf(name, default) ==
    LET at == {i \in DOMAIN ops : ops[i][1] = name}
    IN IF at = {} THEN default
       ELSE ops[CHOOSE i \in at : \A j \in at : j <= i][2]
LastWins == /\ ctl.disp = LastOf("disp", 0)
            /\ ctl.trn = LastOf("tr", None)
            /\ ctl.delay = LET d == LastOf("delay", None)
                           IN IF d = None THEN 0 ELSE d[1]
\* Calls of different names may change places
Commutes == \A i \in 1..Len(ops) - 1 :
    ops[i][1] # ops[i + 1][1] =>
        Settings([ops EXCEPT ![i] = ops[i + 1], ![i + 1] = ops[i]]) = ctl
NoControl == StepControl(ctl) = None <=>
                 ctl.disp = 0 /\ ctl.trn = None /\ ctl.delay = 0

Emit == Len(ops) > 0 =>
    PrintT(<<"SCN", ToJson([ops |-> ops,
        obs |-> [i \in 1..Len(ops) + 1 |->
                    StepShow(Settings(SubSeq(ops, 1, i - 1)))],
        gce |-> StepControl(ctl)])>>)
=============================================================================
