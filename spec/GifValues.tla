------------------------------ MODULE GifValues -----------------------------
(***************************************************************************)
(* Values of the crate on their own: blocks with sub-blocks which are      *)
(* added one by one, color tables made of bytes, pairs of blocks which are *)
(* compared, and errors as texts.                                          *)
(***************************************************************************)
EXTENDS GifBase

\* A sub-block can be stored if its length fits into the byte in front of it
\* and is not zero, which would be the end of the block
CanAdd(data) == Len(data) \in 1..255
SubInit == [ok |-> 1, s |-> <<>>]
SubAdd(b, data) == IF CanAdd(data)
                   THEN [ok |-> 1, s |-> Append(b.s, data)]
                   ELSE [b EXCEPT !.ok = 0]
\* The first sub-block of an unknown extension is its identifier
SubShow(kind, b) ==
    IF kind = "unk" /\ b.s # <<>>
    THEN [ok |-> b.ok, id |-> Head(b.s), s |-> Tail(b.s)]
    ELSE [ok |-> b.ok, id |-> <<>>, s |-> b.s]

\* A color table has three channels for each color
TableShow(c) == LET t == IF Len(c) % 3 = 0 THEN Some(c) ELSE None
                IN [g |-> t, l |-> t]

HasSubBlocks(b) == b.k \in {"pt", "gce", "com", "app", "unk", "dat"}
Bit(x) == IF x THEN 1 ELSE 0
PairShow(a, b) ==
    [eq |-> Bit(a.k = b.k /\ a = b), copy |-> 1,
     sub |-> <<Bit(HasSubBlocks(a)), Bit(HasSubBlocks(b))>>,
     size |-> IF a.k = "lsd" /\ b.k = "lsd"
              THEN <<Bit(a.w = b.w /\ a.h = b.h)>> ELSE <<>>]

\* An error which wraps another one has its text and gives it as its source.
\* Other errors have no source, and texts which tell them apart: call is
\* << name, parameters >>, seen what was observed.
Wraps(call) == call[1] \in {"Io", "TryFromInt"}
ErrorRight(call, seen) ==
    IF Wraps(call) THEN seen.text = seen.inner /\ seen.source = <<seen.inner>>
    ELSE seen.text # "" /\ seen.source = <<>>
ErrorsRight(calls, obs) ==
    /\ Len(calls) = Len(obs)
    /\ \A i \in DOMAIN calls :
         /\ ErrorRight(calls[i], obs[i])
         /\ \A j \in DOMAIN calls :
              ~Wraps(calls[i]) /\ ~Wraps(calls[j])
              /\ obs[i].text = obs[j].text
              => calls[i][1] = calls[j][1] /\ calls[i][2] = calls[j][2]
=============================================================================
