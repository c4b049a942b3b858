------------------------------ MODULE LzwModel ------------------------------
(***************************************************************************)
(* An LZW encoder and the decoder of GifLzw, running in lockstep.          *)
(*                                                                         *)
(* The encoder is described the way an encoder works: it has its own       *)
(* table, which is one entry ahead of the decoder's, and its own rule for  *)
(* the code width.  It may emit any string of its table which matches the  *)
(* input (Greedy restricts it to the longest one), may leave out the first *)
(* clear code, may clear the table at any time, and may go on with a full  *)
(* table.  The model shows that both sides agree for every data.           *)
(*                                                                         *)
(* EndRule = "narrow" is what the crate's compressor does: the end code is *)
(* written with the width of the code before it.  See the known finding    *)
(* for C02; cfg LzwModelNarrow shows that TLC finds it.                    *)
(***************************************************************************)
EXTENDS GifLzw

CONSTANTS MinCode, Values, MaxLen, Greedy, EndRule, MaxClears

VARIABLES data,    \* input consumed by the encoder
          pend,    \* matched string which has no code yet
          etab,    \* encoder's table
          ew,      \* encoder's code width
          codes,   \* emitted << <<code, width>>, ... >>
          clears,  \* number of clear codes
          dec,     \* decoder
          ended,
          long,    \* TRUE while only longest strings were sent, and the table
                   \* was cleared only when full
          ext      \* at a clear code, what would have extended the string
vars == <<data, pend, etab, ew, codes, clears, dec, ended, long, ext>>

Lim == MaxLen + 1
Strings(tab) == {tab[i] : i \in DOMAIN tab} \ {<<>>}
CodeOf(tab, str) == CHOOSE c \in 0..Len(tab) - 1 : tab[c + 1] = str

Send(seq, d) == FoldLeft(LAMBDA x, c : LzwCode(x, c[1], Lim), d, seq)

Init ==
    /\ data = <<>> /\ pend = <<>> /\ ended = FALSE
    /\ etab = LzwTable(MinCode) /\ ew = MinCode + 1
    /\ \E c \in BOOLEAN :
         /\ codes = IF c THEN <<<<ClearCode(MinCode), MinCode + 1>>>> ELSE <<>>
         /\ dec = Send(codes, LzwInit(MinCode))
    /\ clears = 0 /\ long = TRUE /\ ext = {}

\* The first pixel after the start or a clear code
First(p) ==
    /\ ~ended /\ pend = <<>> /\ Len(data) < MaxLen
    /\ data' = Append(data, p) /\ pend' = <<p>>
    /\ long' = (long /\ p \notin ext) /\ ext' = {}
    /\ UNCHANGED <<etab, ew, codes, clears, dec, ended>>

Extend(p) ==
    /\ ~ended /\ pend # <<>> /\ Len(data) < MaxLen
    /\ Append(pend, p) \in Strings(etab)
    /\ data' = Append(data, p) /\ pend' = Append(pend, p)
    /\ UNCHANGED <<etab, ew, codes, clears, dec, ended, long, ext>>

\* Emit the code of pend, and define pend followed by p
EmitCode(p) ==
    LET c == <<<<CodeOf(etab, pend), ew>>>>
        tab == IF Len(etab) <= 2^MaxBits THEN Append(etab, Append(pend, p))
               ELSE etab
    IN /\ ~ended /\ pend # <<>> /\ Len(data) < MaxLen
       /\ Greedy => Append(pend, p) \notin Strings(etab)
       /\ codes' = codes \o c
       /\ dec' = Send(c, dec)
       \* the entry beyond the last code is never used
       /\ etab' = IF Len(tab) > 2^MaxBits THEN SubSeq(tab, 1, 2^MaxBits)
                  ELSE tab
       /\ ew' = IF Len(tab) > 2^ew /\ ew < MaxBits THEN ew + 1 ELSE ew
       /\ data' = Append(data, p) /\ pend' = <<p>>
       /\ long' = (long /\ Append(pend, p) \notin Strings(etab))
       /\ UNCHANGED <<clears, ended, ext>>

\* Width for a code behind the last data code, when no entry was defined yet
NextWidth == IF Len(codes) > 0 /\ codes[Len(codes)][1] # ClearCode(MinCode)
                /\ Len(etab) + 1 > 2^ew /\ ew < MaxBits
             THEN ew + 1 ELSE ew

\* Emit the code of pend and a clear code
Clear ==
    LET c == <<<<CodeOf(etab, pend), ew>>, <<ClearCode(MinCode), NextWidth>>>>
    IN /\ ~ended /\ pend # <<>> /\ clears < MaxClears
       /\ codes' = codes \o c
       /\ dec' = Send(c, dec)
       /\ etab' = LzwTable(MinCode) /\ ew' = MinCode + 1 /\ pend' = <<>>
       /\ clears' = clears + 1
       /\ long' = (long /\ Len(Send(<<Head(c)>>, dec).tab) = 2^MaxBits)
       /\ ext' = {p \in Values : Append(pend, p) \in Strings(etab)}
       /\ UNCHANGED <<data, ended>>

End ==
    LET w == IF EndRule = "narrow" THEN ew
             ELSE IF pend = <<>> THEN ew ELSE NextWidth
        c == (IF pend = <<>> THEN <<>> ELSE <<<<CodeOf(etab, pend), ew>>>>)
             \o <<<<EndCode(MinCode), w>>>>
    IN /\ ~ended
       /\ codes' = codes \o c
       /\ dec' = Send(c, dec)
       /\ pend' = <<>> /\ ended' = TRUE
       /\ UNCHANGED <<data, etab, ew, clears, long, ext>>

Next == \/ \E p \in Values : First(p) \/ Extend(p) \/ EmitCode(p)
        \/ Clear \/ End
        \/ ended /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What has been sent is what the decoder has
InSync == dec.out \o pend = data
NeverBad == dec.st # "bad"
\* Both sides agree on the width of the next code, before it is sent
WidthInSync == ~ended /\ codes # <<>> /\ pend # <<>> => dec.w = ew
WidthBounded == dec.w <= MaxBits /\ ew <= MaxBits
TableBounded == Len(dec.tab) <= 2^MaxBits
\* The decoder's table is a part of the encoder's
TablesAgree == ~ended /\ pend # <<>> =>
    /\ Len(dec.tab) <= Len(etab)
    /\ SubSeq(etab, 1, Len(dec.tab)) = dec.tab
\* Every code was sent with the width the decoder expected
RECURSIVE Widths(_, _)
Widths(d, seq) == IF seq = <<>> THEN TRUE
                  ELSE /\ Head(seq)[2] = d.w
                       /\ Widths(LzwCode(d, Head(seq)[1], Lim), Tail(seq))
WidthsRight == ended => Widths(LzwInit(MinCode), codes)
\* Packing the codes into bytes and unpacking them loses nothing
BytesInverse == ended => LET z == LzwRun(LzwPack(codes), MinCode, Lim)
                         IN z.out = data /\ z.st = "end"
\* Whether the longest strings were sent can be seen in the bytes
LongestSeen == ended => Longest(LzwPack(codes), MinCode) = long
Finished == ended => dec.out = data /\ dec.st = "end"
=============================================================================
