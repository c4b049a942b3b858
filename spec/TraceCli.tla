------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Trace validation of the gift command.  Each line of the trace file:     *)
(*   names    name of each file                                           *)
(*   files    bytes of each file, as an optional value (none: the file     *)
(*            cannot be opened)                                            *)
(*   status   exit status (negative: ended by a signal, or not at all)     *)
(*   reports  what was printed, one record for each file                   *)
(*     name, v, n, loop   file name, version, number of frames, repeat     *)
(*                    (-1: the number 0; endless repetition is 0 here)     *)
(*     com            comment lines                                        *)
(*     head           headings of the columns                              *)
(*     rows           frames: <<interlaced, number, delay, disposal, w, h, *)
(*                    x, y, colors, global, transparent or -1>>            *)
(***************************************************************************)
EXTENDS GifWrite, GifFields, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, failed
T == Traces[t]

Pre(B) == CHOOSE r \in ReadPreamble(B, DefaultMax, FramesInit) : TRUE
Readable(B) ==
    /\ Pre(B).item.k = "pre"
    /\ \A run \in FrameRuns(B, DefaultMax, FramesInit, <<>>) :
           \A i \in DOMAIN run : run[i].k # "err"
Frames(B) == LET run == CHOOSE x \in FrameRuns(B, DefaultMax, FramesInit, <<>>)
                                   : TRUE
             IN SubSeq(run, 1, Len(run) - 1)

\* Comment lines: split at newlines, spaces removed at both ends
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE Lines(_, _)
Lines(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF Head(s) = 10 THEN <<cur>> \o Lines(Tail(s), <<>>)
                 ELSE Lines(Tail(s), Append(cur, Head(s)))
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(s) == IF s # <<>> /\ Head(s) \in Blank THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF s # <<>> /\ s[Len(s)] \in Blank
                THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
CommentLines(com) ==
    SelectSeq(Flatten([i \in DOMAIN com |->
                  Flatten([j \in DOMAIN com[i].s |->
                      LET ls == Lines(com[i].s[j], <<>>)
                      IN [n \in DOMAIN ls |-> TrimRight(TrimLeft(ls[n]))]])]),
              LAMBDA x : x # <<>>)

\* Only text has lines which are specified: UTF-8, without control characters
\* and without blanks other than those of ASCII
In(x, a, b) == x >= a /\ x <= b
RECURSIVE Text(_)
Text(s) ==
    LET At(i) == IF i <= Len(s) THEN s[i] ELSE 0
        More(i) == In(At(i), 128, 191)
        Rest(n) == Text(SubSeq(s, n + 1, Len(s)))
    IN CASE s = <<>> -> TRUE
         [] s # <<>> /\ (In(At(1), 32, 126) \/ At(1) \in Blank) -> Rest(1)
         [] In(At(1), 194, 223) -> /\ More(2)
                                   /\ At(1) = 194 => At(2) > 160
                                   /\ Rest(2)
         [] In(At(1), 224, 239) ->
                /\ More(2) /\ More(3)
                /\ At(1) = 224 => At(2) >= 160
                /\ At(1) = 237 => At(2) < 160
                /\ <<At(1), At(2)>> \notin {<<225, 154>>, <<226, 128>>,
                                           <<226, 129>>, <<227, 128>>,
                                           <<239, 187>>}
                /\ Rest(3)
         [] In(At(1), 240, 244) -> /\ More(2) /\ More(3) /\ More(4)
                                   /\ At(1) = 240 => At(2) >= 144
                                   /\ At(1) = 244 => At(2) < 144
                                   /\ Rest(4)
         [] OTHER -> FALSE
AllText(com) == \A i \in DOMAIN com : \A j \in DOMAIN com[i].s : Text(com[i].s[j])

Row(f, i, gct) ==
    <<BitField(f.img.flags, 6, 1), i - 1,
      IF f.gce = None THEN 0 ELSE f.gce[1].delay,
      IF f.gce = None THEN "-" ELSE DisposalName(f.disp),
      f.img.w, f.img.h, f.img.left, f.img.top,
      IF f.lct # None THEN Len(f.lct[1]) \div 3
      ELSE IF gct # None THEN Len(gct[1]) \div 3 ELSE 0,
      IF f.lct = None THEN 1 ELSE 0,
      IF f.trn = None THEN -1 ELSE f.trn[1]>>

Report(B, name) ==
    LET p == Pre(B).item
        fs == Frames(B)
    IN [name |-> name, v |-> p.v, n |-> Len(fs),
        loop |-> IF p.loop = None THEN None ELSE LoopCount(p.loop[1].s),
        com |-> CommentLines(p.com),
        head |-> <<"Fr#", "Delay", "Disp", "Size", "X,Y", "Clrs", "Trn">>,
        rows |-> [i \in DOMAIN fs |-> Row(fs[i], i, p.gct)]]

Init == t \in DOMAIN Traces /\ l = 1 /\ failed = FALSE

File == /\ l <= Len(T.files) /\ ~failed
        /\ IF T.files[l] # None /\ Readable(T.files[l][1])
           THEN /\ l <= Len(T.reports)
                /\ LET r == Report(T.files[l][1], T.names[l])
                       seen == T.reports[l]
                   IN IF AllText(Pre(T.files[l][1]).item.com)
                      THEN seen = r ELSE [seen EXCEPT !.com = r.com] = r
                /\ failed' = FALSE
           ELSE failed' = TRUE
        /\ l' = l + 1 /\ UNCHANGED t
\* Nothing is said about files which come after one that cannot be read
Done == /\ failed \/ l = Len(T.files) + 1
        /\ T.status >= 0 /\ ((T.status = 0) <=> ~failed)
        /\ IF failed THEN Len(T.reports) >= l - 2 ELSE Len(T.reports) = l - 1
        /\ UNCHANGED <<t, l, failed>>

Next == File \/ Done

Where == [t |-> t, l |-> l]
=============================================================================
