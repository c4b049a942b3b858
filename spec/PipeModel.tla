----------------------------- MODULE PipeModel -----------------------------
(***************************************************************************)
(* A writer puts a file into a pipe, some bytes at a time; a reader takes  *)
(* blocks out of it.  The reader needs Ahead bytes more than the block     *)
(* itself before it returns a block: 0 is what the specification asks for, *)
(* anything else is a reader which does not keep up (PipeModelLate: the    *)
(* property Prompt fails for it).                                          *)
(***************************************************************************)
EXTENDS GifWrite

CONSTANTS Sizes,    \* numbers of bytes the writer puts at a time
          Ahead,    \* how far the reader reads ahead
          Lazy      \* the writer only writes if the reader waits

VARIABLES file,     \* the blocks
          a,        \* bytes in the pipe so far
          d,        \* state of the reader
          out,      \* blocks returned
          ev        \* what happened, in order
vars == <<file, a, d, out, ev>>

Hdr == [k |-> "hdr", v |-> <<56, 57, 97>>]
Lsd(flags) == [k |-> "lsd", w |-> 2, h |-> 1, flags |-> flags, bg |-> 0,
               ar |-> 0]
Img == [k |-> "img", left |-> 0, top |-> 0, w |-> 2, h |-> 1, flags |-> 0]
Dat == [k |-> "dat", d |-> <<0, 1>>]
Trl == [k |-> "trl"]
Files == { <<Hdr, Lsd(0), Trl>>,
           <<Hdr, Lsd(0), [k |-> "com", s |-> <<<<1, 2, 3>>, <<4>>>>], Trl>>,
           <<Hdr, Lsd(0), GceItem(1, 2, 3), [k |-> "com", s |-> <<>>], Trl>>,
           <<Hdr, Lsd(128), [k |-> "gct", c |-> <<1, 2, 3, 4, 5, 6>>], Trl>>,
           <<Hdr, Lsd(0), Img, Dat, Trl>> }
Total == Len(FileBytes(file))

Init == /\ file \in Files
        /\ a = 0 /\ d = BlockInit /\ out = <<>> /\ ev = <<>>

Got == NextBlock(SubSeq(FileBytes(file), 1, a), DefaultMax, d)
IsShort(r) == r.item.k = "err" /\ r.item.e = "UnexpectedEndOfFile"
Ready == \E r \in Got : ~IsShort(r) /\ MinOf(r.d.pos + Ahead, Total) <= a
Finished == out # <<>> /\ Last(out).k = "none"

Write == /\ a < Total
         /\ Lazy => ~Ready /\ ~Finished
         /\ \E n \in Sizes :
               /\ a' = MinOf(a + n, Total)
               /\ ev' = IF Lazy THEN Append(ev, [k |-> "arr", n |-> a'])
                        ELSE ev
         /\ UNCHANGED <<file, d, out>>
Return == /\ Ready /\ ~Finished
          /\ \E r \in Got : /\ d' = r.d
                            /\ out' = Append(out, r.item)
                            /\ ev' = IF Lazy THEN Append(ev, r.item) ELSE ev
          /\ UNCHANGED <<file, a>>
Next == Write \/ Return \/ (Finished /\ a = Total /\ UNCHANGED vars)

\* The reader gets its turn; the writer may stop at any time
Spec == Init /\ [][Next]_vars /\ WF_vars(Return)

-----------------------------------------------------------------------------
\* Number of blocks which are completely in the pipe
Here(m) == Cardinality({i \in DOMAIN file :
                           Len(FileBytes(SubSeq(file, 1, i))) <= m})

\* Blocks are those of the file, never more than there are
Faithful == /\ Len(out) <= Here(a) + 1
            /\ \A i \in DOMAIN out : IF i <= Len(file) THEN Same(out[i], file[i])
                                     ELSE out[i].k = "none"
\* Bytes behind the block are left alone
Exact == d.pos = Len(FileBytes(SubSeq(file, 1, MinOf(Len(out), Len(file)))))
\* If the writer stops, the blocks which are there are returned all the same
Prompt == \A m \in 0..60 : (a = m) ~> (a # m \/ Len(out) >= Here(m))

Emit == (Lazy /\ Finished) =>
    PrintT(<<"SCN", ToJson([bytes |-> FileBytes(file), ev |-> ev])>>)
=============================================================================
