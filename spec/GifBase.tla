------------------------------ MODULE GifBase ------------------------------
(***************************************************************************)
(* Numbers, bytes and options.                                             *)
(*                                                                         *)
(* Bytes are 0..255, byte strings are sequences.  An optional value is a   *)
(* sequence of at most one element, so that values which come out of JSON  *)
(* ([] or [x]) and values built here can be compared by TLC.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

None == <<>>
Some(x) == <<x>>

LE16(lo, hi) == lo + 256 * hi
Lo8(n) == n % 256
Hi8(n) == (n \div 256) % 256

\* len bits of n, starting at bit lo
BitField(n, lo, len) == (n \div 2^lo) % 2^len
\* n with len bits at lo replaced by v
SetField(n, lo, len, v) == n - 2^lo * BitField(n, lo, len) + 2^lo * v

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

\* w * h > max, without computing the product (TLC integers have 32 bits);
\* a negative max means no limit
AreaExceeds(w, h, max) == max >= 0 /\ w > 0 /\ h > max \div w

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
MaxIn(s) == FoldLeft(LAMBDA a, b : MaxOf(a, b), 0, s)
=============================================================================
