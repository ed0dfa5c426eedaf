---- MODULE Bytes ----
(* Byte strings are sequences of 0..255.  Numbers that may exceed TLC's 32-bit
   integers (uids, sizes, ...) are kept as canonical decimal ASCII strings.
   Streams are kept run-length encoded, as sequences of <<byte, count>> in
   normal form (adjacent runs differ, counts positive), so equality of streams
   is equality of values. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Lit

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* first position of byte b in s, 0 if there is none
IndexOf(s, b) == SelectInSeq(s, LAMBDA x : x = b)

Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
HasAt(s, t, i) == SubSeq(s, i, i + Len(t) - 1) = t
Count(s, t) == Cardinality({i \in 1..(Len(s) - Len(t) + 1) : HasAt(s, t, i)})
HasSub(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : HasAt(s, t, i)

RECURSIVE SplitOn(_, _)
SplitOn(s, b) == LET i == IndexOf(s, b) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitOn(Drop(s, i), b)

\* the parts joined with byte b
RECURSIVE Join(_, _)
Join(parts, b) == LET n == Len(parts) IN
  IF n = 0 THEN <<>> ELSE IF n = 1 THEN parts[1]
  ELSE Join(SubSeq(parts, 1, n \div 2), b) \o <<b>> \o Join(Drop(parts, n \div 2), b)

----------------------------------------------------------------------------
\* UTF-8 (RFC 3629: no overlong forms, no surrogates, at most U+10FFFF)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
RECURSIVE Utf8At(_, _)
Utf8At(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i] IN
    IF b < 128 THEN Utf8At(s, i + 1)
    ELSE IF b \in 194..223 THEN Cont(s, i + 1) /\ Utf8At(s, i + 2)
    ELSE IF b \in 224..239 THEN
      /\ Cont(s, i + 1) /\ Cont(s, i + 2)
      /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] <= 159)
      /\ Utf8At(s, i + 3)
    ELSE IF b \in 240..244 THEN
      /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
      /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] <= 143)
      /\ Utf8At(s, i + 4)
    ELSE FALSE
Utf8(s) == (\A i \in 1..Len(s) : s[i] < 128) \/ Utf8At(s, 1)

----------------------------------------------------------------------------
\* decimal numbers
IsDigit(b) == b \in 48..57
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip0(Tail(s)) ELSE s
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i + 1)
DecLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b, 1)

RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>

None == [ok |-> FALSE, v |-> <<>>]
Some(x) == [ok |-> TRUE, v |-> x]

\* an unsigned number not above max: optional `+`, then digits
ParseU(s, max) == LET d == IF Len(s) > 0 /\ s[1] = 43 THEN Tail(s) ELSE s IN
  IF AllDigits(d) /\ DecLeq(Strip0(d), max) THEN Some(Strip0(d)) ELSE None
\* a signed number: optional `+` or `-`
ParseI(s, max, min) ==
  IF Len(s) > 0 /\ s[1] = 45
  THEN LET d == Tail(s) IN
       IF AllDigits(d) /\ DecLeq(Strip0(d), min)
       THEN Some(IF Strip0(d) = <<48>> THEN <<48>> ELSE <<45>> \o Strip0(d)) ELSE None
  ELSE ParseU(s, max)

----------------------------------------------------------------------------
\* run-length encoded streams
RCons(r, b, n) == IF n = 0 THEN r
  ELSE IF Len(r) > 0 /\ r[Len(r)][1] = b THEN [r EXCEPT ![Len(r)] = <<b, @[2] + n>>]
  ELSE Append(r, <<b, n>>)
RCat(a, b) == IF Len(b) = 0 THEN a ELSE RCons(a, b[1][1], b[1][2]) \o Tail(b)
RECURSIVE Rle(_)
Rle(s) == IF Len(s) <= 32 THEN FoldLeft(LAMBDA r, b : RCons(r, b, 1), <<>>, s)
          ELSE RCat(Rle(SubSeq(s, 1, Len(s) \div 2)), Rle(Drop(s, Len(s) \div 2)))
RECURSIVE Flat(_)
Flat(r) == IF Len(r) = 0 THEN <<>> ELSE IF Len(r) = 1 THEN [i \in 1..r[1][2] |-> r[1][1]]
           ELSE Flat(SubSeq(r, 1, Len(r) \div 2)) \o Flat(Drop(r, Len(r) \div 2))
RLen(r) == FoldLeft(LAMBDA n, x : n + x[2], 0, r)
\* a is a prefix of b
RPrefix(a, b) ==
  \/ Len(a) = 0
  \/ /\ Len(a) <= Len(b)
     /\ SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(a) - 1)
     /\ a[Len(a)][1] = b[Len(a)][1] /\ a[Len(a)][2] <= b[Len(a)][2]
RNorm(r) == FoldLeft(LAMBDA q, x : RCons(q, x[1], x[2]), <<>>, r)
RFirst(r) == IF Len(r) = 0 THEN -1 ELSE r[1][1]
====
