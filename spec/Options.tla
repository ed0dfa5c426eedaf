---- MODULE Options ----
(* How sudo's key=value lists are read (C14): an abstract specification of
   OptionMap and of every typed access to it. *)
EXTENDS Bytes, TLC

EQ == 61
KeyOf(e) == LET i == IndexOf(e, EQ) IN IF i = 0 THEN e ELSE SubSeq(e, 1, i - 1)
ValOf(e) == LET i == IndexOf(e, EQ) IN IF i = 0 THEN e ELSE Drop(e, i)

\* a list read as a map: the last entry for a key wins
OptMap(arr) == FoldLeft(LAMBDA f, e : (KeyOf(e) :> ValOf(e)) @@ f, <<>>, arr)
GetBytes(mp, k) == IF k \in DOMAIN mp THEN Some(mp[k]) ELSE None
GetText(mp, k) == LET v == GetBytes(mp, k) IN IF v.ok /\ Utf8(v.v) THEN v ELSE None

\* the types a value can be read as; integers yield their canonical decimal text
ParseBool(s) == IF s = L_true THEN Some(TRUE) ELSE IF s = L_false THEN Some(FALSE) ELSE [ok |-> FALSE, v |-> FALSE]

IntTypes == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
ParseInt(t, s) ==
  CASE t = "u8"  -> ParseU(s, L_MaxU8)
    [] t = "u16" -> ParseU(s, L_MaxU16)
    [] t = "u32" -> ParseU(s, L_MaxU32)
    [] t = "u64" -> ParseU(s, L_MaxU64)
    [] t = "i8"  -> ParseI(s, L_MaxI8, L_MinI8)
    [] t = "i16" -> ParseI(s, L_MaxI16, L_MinI16)
    [] t = "i32" -> ParseI(s, L_MaxI32, L_MinI32)
    [] t = "i64" -> ParseI(s, L_MaxI64, L_MinI64)

\* all elements or nothing
ParseList(t, s) == LET parts == SplitOn(s, 44)
                       vs == [i \in 1..Len(parts) |-> IF t \in {"path", "string"} THEN Some(parts[i]) ELSE ParseInt(t, parts[i])] IN
  IF \A i \in 1..Len(vs) : vs[i].ok THEN Some([i \in 1..Len(vs) |-> vs[i].v]) ELSE None

GetInt(mp, k, t) == LET v == GetText(mp, k) IN IF v.ok THEN ParseInt(t, v.v) ELSE None
GetBool(mp, k) == LET v == GetText(mp, k) IN IF v.ok THEN ParseBool(v.v) ELSE [ok |-> FALSE, v |-> FALSE]
GetList(mp, k, t) == LET v == GetText(mp, k) IN IF v.ok THEN ParseList(t, v.v) ELSE None
Or(o, d) == IF o.ok THEN o.v ELSE d

\* network addresses "addr/mask", see Addr below
HexDigit(b) == b \in 48..57 \/ b \in 97..102 \/ b \in 65..70
HexVal(b) == IF b <= 57 THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
\* dotted quad: four decimal numbers 0..255 without superfluous zeros
Quad(s) == LET p == SplitOn(s, 46) IN
  IF /\ Len(p) = 4
     /\ \A i \in 1..4 : AllDigits(p[i]) /\ Len(p[i]) <= 3 /\ (Len(p[i]) = 1 \/ p[i][1] # 48) /\ DecLeq(p[i], L_MaxU8)
  THEN Some([i \in 1..4 |-> FoldLeft(LAMBDA n, b : n * 10 + b - 48, 0, p[i])]) ELSE None
Hex16(s) == FoldLeft(LAMBDA n, b : n * 16 + HexVal(b), 0, s)
IsH16(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : HexDigit(s[i])
\* groups of an IPv6 text without "::"; a dotted quad may stand for the last two
Groups(s, lastok) == IF s = <<>> THEN Some(<<>>) ELSE
  LET p == SplitOn(s, 58)
      n == Len(p)
      q == Quad(p[n])
      v4 == lastok /\ q.ok /\ ~IsH16(p[n])
      m == IF v4 THEN n - 1 ELSE n IN
  IF \A i \in 1..m : IsH16(p[i])
  THEN Some([i \in 1..m |-> Hex16(p[i])] \o (IF v4 THEN <<q.v[1] * 256 + q.v[2], q.v[3] * 256 + q.v[4]>> ELSE <<>>))
  ELSE None
Zeros(n) == [i \in 1..n |-> 0]
V6(s) ==
  LET gaps == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58} IN
  IF gaps = {} THEN LET g == Groups(s, TRUE) IN IF g.ok /\ Len(g.v) = 8 THEN g ELSE None
  ELSE LET i == CHOOSE x \in gaps : \A y \in gaps : x <= y
           a == Groups(SubSeq(s, 1, i - 1), FALSE)
           b == Groups(Drop(s, i + 1), TRUE) IN
       IF a.ok /\ b.ok /\ Len(a.v) + Len(b.v) <= 7
       THEN Some(a.v \o Zeros(8 - Len(a.v) - Len(b.v)) \o b.v) ELSE None
Addr(s) == LET q == Quad(s) IN IF q.ok THEN q ELSE V6(s)
NetAddr(s) == LET i == IndexOf(s, 47)
                  a == Addr(IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1))
                  b == IF i = 0 THEN None ELSE Addr(Drop(s, i)) IN
  IF a.ok /\ b.ok THEN Some(<<a.v, b.v>>) ELSE None
NetAddrs(s) == LET p == SplitOn(s, 32) vs == [i \in 1..Len(p) |-> NetAddr(p[i])] IN
  IF \A i \in 1..Len(vs) : vs[i].ok THEN Some([i \in 1..Len(vs) |-> vs[i].v]) ELSE None
====
