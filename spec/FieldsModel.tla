---------------------------- MODULE FieldsModel ----------------------------
(***************************************************************************)
(* Packed fields: for every flags value and every setter, the field which  *)
(* is named changes to the given value and all others stay (C18).  The     *)
(* color table configuration is one field: existence, ordering, size and,  *)
(* for the screen, color resolution.                                       *)
(***************************************************************************)
EXTENDS GifFields, Json

CONSTANT Types

VARIABLES type, calls, b, old
vars == <<type, calls, b, old>>

Cfgs == {<<ex, so, n>> : ex \in 0..1, so \in 0..1,
                         n \in {0, 1, 2, 3, 4, 5, 16, 17, 128, 129, 256}}
Setters(ty) ==
    CASE ty = "lsd" -> {<<"cfg", c>> : c \in Cfgs}
                       \cup {<<"w", 513>>, <<"h", 65535>>, <<"bg", 200>>,
                             <<"ar", 49>>}
      [] ty = "img" -> {<<"cfg", c>> : c \in Cfgs}
                       \cup {<<"il", 0>>, <<"il", 1>>, <<"left", 258>>,
                             <<"top", 772>>, <<"w", 65535>>, <<"h", 65535>>}
      [] OTHER -> {<<"disp", n>> : n \in 0..7} \cup {<<"dispnum", 253>>}
                  \cup {<<"ui", 0>>, <<"ui", 1>>, <<"delay", 65535>>,
                        <<"idx", 200>>, <<"tr", <<>>>>, <<"tr", <<0>>>>,
                        <<"tr", <<255>>>>}

Init == /\ type \in Types
        /\ \E f \in 0..255 :
             /\ calls = <<<<"flags", f>>>>
             /\ b = FieldSet(type, FieldInit(type, None), <<"flags", f>>)
        /\ old = b
Next == \/ /\ Len(calls) = 1
           /\ \E c \in Setters(type) : /\ calls' = Append(calls, c)
                                       /\ b' = FieldSet(type, b, c)
           /\ old' = b
           /\ UNCHANGED type
        \/ Len(calls) = 2 /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Fields as a reader of the format sees them
Fields(x) ==
    CASE type = "lsd" ->
            [w |-> x.w, h |-> x.h, bg |-> x.bg, ar |-> x.ar,
             ex |-> x.flags \div 128, cfg |-> x.flags % 128]
      [] type = "img" ->
            [left |-> x.left, top |-> x.top, w |-> x.w, h |-> x.h,
             cfg |-> <<x.flags \div 128, (x.flags \div 32) % 2, x.flags % 8>>,
             il |-> (x.flags \div 64) % 2, rsv |-> (x.flags \div 8) % 4]
      [] OTHER ->
            [delay |-> x.delay, idx |-> x.tr, tf |-> x.flags % 2,
             ui |-> (x.flags \div 2) % 2, disp |-> (x.flags \div 4) % 8,
             rsv |-> x.flags \div 32]
\* Names of the fields a setter may change
Names(c) == CASE c[1] = "cfg" -> {"cfg", "ex"}
              [] c[1] = "dispnum" -> {"disp"}
              [] c[1] = "tr" -> {"tf", "idx"}
              [] OTHER -> {c[1]}

Setter == calls[2]
OnlyNamed ==
    Len(calls) = 2 =>
        \A f \in DOMAIN Fields(b) \ Names(Setter) : Fields(b)[f] = Fields(old)[f]
Smallest(n) == CHOOSE p \in {2, 4, 8, 16, 32, 64, 128, 256} :
                   p >= n /\ \A q \in {2, 4, 8, 16, 32, 64, 128, 256} :
                                 q >= n => p <= q
AsSet ==
    Len(calls) = 2 =>
        LET v == Setter[2]
            s == FieldShow(type, b)
        IN CASE Setter[1] = "cfg" ->
                  /\ s.cfg[1] = v[1] /\ s.cfg[2] = v[2]
                  /\ s.cfg[3] = IF v[1] = 1 THEN Smallest(v[3]) ELSE 0
                  /\ s.cfg[4] = 3 * s.cfg[3]
             [] Setter[1] = "tr" -> s.trn = v
             [] Setter[1] \in {"disp", "dispnum"} -> s.dnum = v % 8
             [] OTHER -> s[Setter[1]] = v
FlagsKept == FieldShow(type, old).flags = calls[1][2]

Emit == Len(calls) = 2 =>
    PrintT(<<"SCN", ToJson([type |-> type, calls |-> calls, loop |-> None,
                            obs |-> <<FieldShow(type, FieldInit(type, None)),
                                      FieldShow(type, old),
                                      FieldShow(type, b)>>])>>)
=============================================================================
