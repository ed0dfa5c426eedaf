---- MODULE OptLaws ----
(* The laws of sudo's key=value lists (C14), checked on the specification that
   judges the real OptionMap (Options.tla).  A list grows entry by entry; TLC
   visits every list within the bounds, and each of them is a scenario that is
   replayed on the real code (GenerateLists). *)
EXTENDS Session, Json

CONSTANTS Alpha,        \* bytes entries are made of
          MaxLen,       \* longest entry
          MaxEntries,   \* entries in a list
          GenAll        \* print every list

VARIABLES arr, mp
vars == <<arr, mp>>

Strings(al, n) == UNION {[1..k -> al] : k \in 0..n}
Entries == Strings(Alpha, MaxLen)
Keys == Strings(Alpha, 2)

Init == arr = <<>> /\ mp = OptMap(<<>>)
Grow(e) == /\ Len(arr) < MaxEntries /\ arr' = Append(arr, e) /\ mp' = OptMap(arr')
Next == \E e \in Entries : Grow(e)
Spec == Init /\ [][Next]_vars

\* e denotes value v for key k: declaratively, without looking for separators
Denotes(e, k, v) == (~\E i \in 1..Len(k) : k[i] = EQ) /\ \/ e = k \o <<EQ>> \o v
                                                         \/ e = k /\ v = k
\* "the last entry for a key wins", "entries do not affect each other"
LastWins == \A k \in Keys :
  LET idx == {i \in 1..Len(arr) : \E v \in Strings(Alpha, MaxLen) : Denotes(arr[i], k, v)} IN
  /\ GetBytes(mp, k).ok <=> idx # {}
  /\ idx # {} => LET i == CHOOSE x \in idx : \A y \in idx : y <= x IN Denotes(arr[i], k, GetBytes(mp, k).v)
Unambiguous == \A i \in 1..Len(arr) : Cardinality({k \in Strings(Alpha, MaxLen) : \E v \in Strings(Alpha, MaxLen) : Denotes(arr[i], k, v)}) = 1
\* appending an entry changes what is read for its own key only
Independent == [][\A k \in DOMAIN mp : k # KeyOf(arr'[Len(arr')]) => k \in DOMAIN mp' /\ mp'[k] = mp[k]]_vars
\* typed access is total, and never more than the raw value
Typed == \A k \in DOMAIN mp : LET v == GetText(mp, k) IN
  /\ v.ok => v = GetBytes(mp, k)
  /\ \A t \in IntTypes : GetInt(mp, k, t).ok => v.ok
  /\ \A t \in IntTypes : LET l == GetList(mp, k, t) IN l.ok => Len(l.v) = Cardinality({i \in 1..Len(v.v) : v.v[i] = 44}) + 1
  /\ GetBool(mp, k).ok => v.v \in {L_true, L_false}
GenerateLists == GenAll => PrintT("LIST " \o ToJson(arr))

----------------------------------------------------------------------------
\* integers: the decimal-string arithmetic against real arithmetic, for every short text
Num == Strings({43, 45, 48, 49, 50, 53, 56, 32}, 4)
ValOfDigits(d) == FoldLeft(LAMBDA n, b : n * 10 + b - 48, 0, d)
Sign(s) == IF Len(s) > 0 /\ s[1] \in {43, 45} THEN s[1] ELSE 0
Body(s) == IF Sign(s) # 0 THEN Tail(s) ELSE s
IntOf(s) == (IF Sign(s) = 45 THEN -1 ELSE 1) * ValOfDigits(Body(s))
DecI(n) == IF n < 0 THEN <<45>> \o DecOf(-n) ELSE DecOf(n)
IntLaw(t, lo, hi) == \A s \in Num :
  LET r == ParseInt(t, s)
      want == AllDigits(Body(s)) /\ (Sign(s) = 45 => lo < 0) /\ IntOf(s) \in lo..hi IN
  r.ok = want /\ (r.ok => r.v = DecI(IntOf(s)))
\* widths nest, and the limits are the limits
Limits == /\ \A p \in {<<"u8", L_MaxU8>>, <<"u16", L_MaxU16>>, <<"u32", L_MaxU32>>, <<"u64", L_MaxU64>>, <<"i8", L_MaxI8>>, <<"i16", L_MaxI16>>, <<"i32", L_MaxI32>>, <<"i64", L_MaxI64>>} :
               /\ ParseInt(p[1], p[2]) = Some(p[2]) /\ ~ParseInt(p[1], p[2] \o <<48>>).ok
               /\ ~ParseInt(p[1], [p[2] EXCEPT ![Len(p[2])] = @ + 1]).ok
               /\ ParseInt(p[1], <<43, 48, 48>> \o p[2]) = Some(p[2])
          /\ \A p \in {<<"i8", L_MinI8>>, <<"i16", L_MinI16>>, <<"i32", L_MinI32>>, <<"i64", L_MinI64>>} :
               /\ ParseInt(p[1], <<45>> \o p[2]) = Some(<<45>> \o p[2])
               /\ ~ParseInt(p[1], <<45>> \o [p[2] EXCEPT ![Len(p[2])] = @ + 1]).ok
\* UTF-8: the automaton against the definition by encoding every scalar value at the boundaries
Enc(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Lead == {65, 128, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Cnt == {65, 127, 128, 143, 144, 159, 160, 191, 192}
Dec2(s) == (s[1] - 192) * 64 + s[2] - 128
Dec3(s) == (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
Dec4(s) == (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
One(s) == CASE Len(s) = 1 -> s[1] < 128
            [] Len(s) = 2 -> Scalar(Dec2(s)) /\ Enc(Dec2(s)) = s
            [] Len(s) = 3 -> Scalar(Dec3(s)) /\ Enc(Dec3(s)) = s
            [] Len(s) = 4 -> Scalar(Dec4(s)) /\ Enc(Dec4(s)) = s
RECURSIVE Decodes(_)
Decodes(s) == s = <<>> \/ \E n \in 1..Min2(4, Len(s)) : One(SubSeq(s, 1, n)) /\ Decodes(Drop(s, n))
Utf8Law == \A a \in Lead, b \in Cnt, c \in Cnt, d \in Cnt \cup {0} :
             LET s == IF d = 0 THEN <<a, b, c>> ELSE <<a, b, c, d>> IN Utf8(s) <=> Decodes(s)
Utf8Short == \A a, b \in Lead \cup Cnt : (Utf8(<<a, b>>) <=> Decodes(<<a, b>>)) /\ (Utf8(<<a>>) <=> Decodes(<<a>>))
\* addresses
A4(s) == Addr(s)
AddrLaw == /\ \A s \in Strings({46, 48, 49}, 7) : A4(s).ok <=> (Len(s) = 7 /\ \A i \in {1, 3, 5, 7} : s[i] # 46) /\ (\A i \in {2, 4, 6} : s[i] = 46)
           /\ \A n \in 0..9 : LET s == Join([i \in 1..n |-> <<49>>], 58) IN Addr(s).ok <=> n = 8
           /\ \A n \in 0..9 : LET s == <<58, 58>> \o Join([i \in 1..n |-> <<97>>], 58) IN Addr(s).ok <=> n <= 7

\* run-length encoding, joining and splitting, templates: the divided computations against the plain definitions
Pad(s, n) == [i \in 1..n |-> 120] \o s \o [i \in 1..n |-> 120]
RleLaw == \A s \in Strings({120, 121}, 5), n \in {0, 14, 15, 16, 40} : LET r == Rle(Pad(s, n)) IN
            /\ Flat(r) = Pad(s, n) /\ RNorm(r) = r /\ RLen(r) = Len(s) + 2 * n
            /\ \A i \in 1..Len(r) : r[i][2] > 0 /\ (i > 1 => r[i][1] # r[i - 1][1])
            /\ \A k \in 0..Len(s) : RPrefix(Rle(SubSeq(s, 1, k)), Rle(s)) /\ RCat(Rle(SubSeq(s, 1, k)), Rle(Drop(s, k))) = Rle(s)
JoinLaw == \A s \in Strings({44, 49}, 6) : Join(SplitOn(s, 44), 44) = s /\ Len(SplitOn(s, 44)) = 1 + Cardinality({i \in 1..Len(s) : s[i] = 44})
\* every maximal piece of a template stands for itself, a directive for its value
Vals == [b \in {37, 117, 120, 121} |-> Rle(IF b = 117 THEN <<37, 117, 117>> ELSE <<b>>)]
RECURSIVE Plainly(_)
Plainly(t) == IF t = <<>> \/ t = <<37>> THEN <<>> ELSE IF t[1] = 37 THEN Flat(Vals[t[2]]) \o Plainly(Drop(t, 2)) ELSE <<t[1]>> \o Plainly(Tail(t))
TemplateLaw == \A t \in Strings({37, 117, 121}, 5), n \in {0, 14, 15, 16, 33} : LET x == Pad(t, n) IN Flat(ExpandFrom(Vals, x, FALSE).out) = Plainly(x)

ASSUME RleLaw /\ JoinLaw /\ TemplateLaw
ASSUME IntLaw("u8", 0, 255) /\ IntLaw("i8", -128, 127) /\ IntLaw("u16", 0, 65535) /\ IntLaw("i16", -32768, 32767)
ASSUME Limits
ASSUME Utf8Law /\ Utf8Short
ASSUME AddrLaw
====
