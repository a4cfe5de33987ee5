------------------------------- MODULE Codec -------------------------------
(* The storage, packed, wire and descriptive formats: the byte string of a  *)
(* data-model term (Enc), and the grammar of every type, as the partial      *)
(* function from byte strings to values it denotes (Dec).  A codec is        *)
(*   [f: format, m: mode, o: options, pk: inside of a pack]                   *)
EXTENDS Schema

OptsTable == [d |-> [fx |-> FALSE, big |-> FALSE, len |-> 0], vbig |-> [fx |-> FALSE, big |-> TRUE, len |-> 0],
              fix |-> [fx |-> TRUE, big |-> FALSE, len |-> 8], fixbig |-> [fx |-> TRUE, big |-> TRUE, len |-> 8],
              fix8 |-> [fx |-> TRUE, big |-> FALSE, len |-> 1], fix16b |-> [fx |-> TRUE, big |-> TRUE, len |-> 2],
              v32 |-> [fx |-> FALSE, big |-> FALSE, len |-> 4], fixv |-> [fx |-> TRUE, big |-> FALSE, len |-> 0]]
Opts(c) == OptsTable[c.o]
\* values are copied bitwise where the options describe the machine's memory
Bitwise(c) == c.f = "storage" /\ c.o = "fix"
Pk(c) == [c EXCEPT !.f = "storage", !.pk = TRUE]
Codec(f, m, o) == [f |-> IF f = "packed" THEN "storage" ELSE f, m |-> m, d |-> OnRead(m), o |-> o, pk |-> f = "packed"]

\* a byte string which cannot be written
Bad == <<-1>>
IsBad(s) == \E i \in 1..Len(s) : s[i] = -1
-----------------------------------------------------------------------------
\* lengths and usize
EncUs(c, v) ==
  LET n == Opts(c).len
  IN IF n = 0 THEN VarEnc(v) ELSE IF ~AllZero(Drop(v, n)) THEN Bad ELSE InOrder(Take(v, n), Opts(c).big)
EncLen(c, n) == EncUs(c, LE(n, 8))

\* tag with a small number in its low bits
Tagged(c, base, mask, n) == IF n < mask THEN <<base + n>> ELSE <<base + mask>> \o EncLen(c, n)
WSeq(c, n) == Tagged(c, 128, 63, n)
WPrefix(c, n) == Tagged(c, 64, 63, n)
DTag(c, kind, n) == Tagged(c, 32 * kind, 31, n)
Mark(n) == 224 + n
WidthLog(w) == CASE w = 1 -> 3 [] w = 2 -> 4 [] w = 4 -> 5 [] w = 8 -> 6 [] w = 16 -> 7

EncInt(c, k, w, v) ==
  LET o == Opts(c)
  IN CASE c.f = "storage" ->
            (IF k \in {"us", "is"} THEN EncUs(c, v)
             ELSE IF w = 1 THEN v
             ELSE IF o.fx THEN InOrder(v, o.big)
             ELSE VarEnc(IF k = "i" THEN Zig(v) ELSE v))
       [] c.f = "wire" ->
            LET u == IF k = "i" /\ w > 1 THEN Zig(v) ELSE v
                var == IF AllZero(Tail(u)) /\ u[1] < 63 THEN <<192 + u[1]>> ELSE <<255>> \o VarEnc(u)
            IN IF k \in {"us", "is"} THEN (IF o.len = 0 THEN var ELSE <<64 + o.len>> \o EncUs(c, v))
               ELSE IF o.fx THEN <<64 + w>> \o InOrder(u, o.big) ELSE var
       [] c.f = "desc" ->
            <<64 + (4 * WidthLog(w)) + (CASE k \in {"u", "us"} -> 1 [] k \in {"i", "is"} -> 0 [] OTHER -> 2)>>
              \o VarEnc(IF k \in {"i", "is"} THEN Zig(v) ELSE v)

RECURSIVE Enc(_, _), EncAll(_, _)
EncAll(c, ts) == Flat([i \in 1..Len(ts) |-> Enc(c, ts[i])])
EncPack(c, ts) ==
  LET body == EncAll(Pk(c), ts)
  IN CASE c.f = "storage" -> body
       [] c.f = "wire" -> WPrefix(c, Len(body)) \o body
       [] c.f = "desc" -> DTag(c, 5, Len(body)) \o body
Enc(c, t) ==
  LET k == t[1]
      st == c.f = "storage"
      wi == c.f = "wire"
  IN CASE k = "int" -> EncInt(c, t[2], t[3], t[4])
       [] k = "bool" -> <<IF st THEN t[2] ELSE IF wi THEN 192 + t[2] ELSE Mark(3 - t[2])>>
       [] k = "char" -> IF c.f = "desc" THEN <<Mark(5)>> \o VarEnc(LE(t[2], 4)) ELSE EncInt(c, "u", 4, LE(t[2], 4))
       [] k \in {"str", "bytes"} -> (IF st THEN EncLen(c, Len(t[2])) ELSE IF wi THEN WPrefix(c, Len(t[2])) ELSE DTag(c, IF k = "str" THEN 6 ELSE 5, Len(t[2]))) \o t[2]
       [] k = "array" -> (IF st THEN <<>> ELSE IF wi THEN WPrefix(c, Len(t[2])) ELSE DTag(c, 5, Len(t[2]))) \o t[2]
       [] k = "fempty" /\ Bitwise(c) -> <<>>
       [] k \in {"empty", "fempty"} -> IF st THEN EncLen(c, 0) ELSE IF wi THEN <<128>> ELSE <<Mark(6)>>
       [] k = "none" -> IF st THEN (IF c.pk THEN <<>> ELSE <<0>>) ELSE IF wi THEN <<128>> ELSE <<Mark(0)>>
       [] k = "some" -> (IF st THEN (IF c.pk THEN <<>> ELSE <<1>>) ELSE IF wi THEN <<129>> ELSE <<Mark(1)>>) \o Enc(c, t[2])
       [] k = "fseq" /\ Bitwise(c) -> EncAll(c, t[2])
       [] k \in {"seq", "fseq"} -> (IF st THEN EncLen(c, Len(t[2])) ELSE IF wi THEN WSeq(c, Len(t[2])) ELSE DTag(c, 3, Len(t[2]))) \o EncAll(c, t[2])
       [] k = "map" -> (IF st THEN EncLen(c, Len(t[2])) ELSE IF wi THEN WSeq(c, 2 * Len(t[2])) ELSE DTag(c, 4, Len(t[2])))
                         \o Flat([i \in 1..Len(t[2]) |-> Enc(c, t[2][i][1]) \o Enc(c, t[2][i][2])])
       [] k = "var" -> (IF st THEN <<>> ELSE IF wi THEN <<130>> ELSE <<Mark(4)>>) \o Enc(c, t[2]) \o Enc(c, t[3])
       [] k = "pack" -> EncPack(c, t[2])
       [] k = "fpack" -> IF Bitwise(c) THEN EncAll(c, t[2]) ELSE EncPack(c, t[3])
\* the bytes of a value of type t
Bytes(c, t, v) == Enc(c, Model(c.m, t, v, FALSE))

-----------------------------------------------------------------------------
(* Reading.  Every operator reads at p..e of b and returns <<>> if there is  *)
(* nothing of that shape, or <<value, position after it>>.                   *)
Byte(b, p, e) == IF p <= e THEN <<b[p], p + 1>> ELSE <<>>
Raw(n, b, p, e) == IF p + n - 1 <= e THEN <<SubSeq(b, p, p + n - 1), p + n>> ELSE <<>>
Map1(r, F(_)) == IF r = <<>> THEN <<>> ELSE <<F(r[1]), r[2]>>
Some1(r, ok(_)) == IF r = <<>> \/ ~ok(r[1]) THEN <<>> ELSE r

DecUs(c, b, p, e) ==
  LET n == Opts(c).len
      big == Opts(c).big
  IN IF n = 0 THEN VarDec(8, b, p, e) ELSE Map1(Raw(n, b, p, e), LAMBDA s : InOrder(s, big) \o Zeros(8 - n))
DecLen(c, b, p, e) == Map1(DecUs(c, b, p, e), Small)
\* the number in a tag starting at base, or the length after it
TagLen(c, base, mask, b, p, e) ==
  IF p > e \/ b[p] < base \/ b[p] > base + mask THEN <<>>
  ELSE IF b[p] < base + mask THEN <<b[p] - base, p + 1>> ELSE DecLen(c, b, p + 1, e)
SeqLen(c, b, p, e) == IF c.f = "storage" THEN DecLen(c, b, p, e) ELSE IF c.f = "wire" THEN TagLen(c, 128, 63, b, p, e) ELSE TagLen(c, 96, 31, b, p, e)
MapLen(c, b, p, e) == IF c.f = "storage" THEN DecLen(c, b, p, e) ELSE IF c.f = "wire" THEN Map1(Some1(TagLen(c, 128, 63, b, p, e), LAMBDA n : (n % 2) = 0), LAMBDA n : n \div 2) ELSE TagLen(c, 128, 31, b, p, e)
BlobLen(c, str, b, p, e) == IF c.f = "storage" THEN DecLen(c, b, p, e) ELSE IF c.f = "wire" THEN TagLen(c, 64, 63, b, p, e) ELSE TagLen(c, IF str THEN 192 ELSE 160, 31, b, p, e)

\* numbers
DescNumber(b, p, e) == \* any number: <<<<"u" | "i" | "f", width, bytes>>, p'>>
  IF p > e \/ b[p] < 64 \/ b[p] > 95 THEN <<>>
  ELSE LET d == b[p] - 64
           lw == d \div 4
           k == d % 4
           w == IF lw < 3 THEN 0 ELSE 2 ^ (lw - 3)
       IN IF w = 0 \/ k = 3 \/ (k = 2 /\ w \notin {4, 8}) THEN <<>>
          ELSE Map1(VarDec(w, b, p + 1, e), LAMBDA v : <<CASE k = 0 -> "i" [] k = 1 -> "u" [] OTHER -> "f", w, IF k = 0 THEN Unzig(v) ELSE v>>)
DecInt(c, k, w, b, p, e) ==
  LET o == Opts(c)
  IN CASE c.f = "storage" ->
            (IF k \in {"us", "is"} THEN DecUs(c, b, p, e)
             ELSE IF w = 1 THEN Raw(1, b, p, e)
             ELSE IF o.fx THEN Map1(Raw(w, b, p, e), LAMBDA s : InOrder(s, o.big))
             ELSE Map1(VarDec(w, b, p, e), LAMBDA v : IF k = "i" THEN Unzig(v) ELSE v))
       [] c.f = "wire" ->
            LET var == IF p > e \/ b[p] < 192 THEN <<>> ELSE IF b[p] < 255 THEN <<LE(b[p] - 192, w), p + 1>> ELSE VarDec(w, b, p + 1, e)
                fixed(n) == IF p > e \/ b[p] # 64 + n THEN <<>> ELSE Map1(Raw(n, b, p + 1, e), LAMBDA s : InOrder(s, o.big))
            IN IF k \in {"us", "is"} THEN (IF o.len = 0 THEN var ELSE Map1(fixed(o.len), LAMBDA s : s \o Zeros(8 - o.len)))
               ELSE Map1(IF o.fx THEN fixed(w) ELSE var, LAMBDA v : IF k = "i" /\ w > 1 THEN Unzig(v) ELSE v)
       [] c.f = "desc" ->
            \* the width in the tag of an integer is a hint: any integer which fits is read
            IF p > e \/ b[p] < 64 \/ b[p] > 95 THEN <<>>
            ELSE LET kd == b[p] % 4
                     sg == k \in {"i", "is"}
                     lw == (b[p] - 64) \div 4
                     r == VarDec(IF kd = 0 /\ ~sg THEN 16 ELSE w, b, p + 1, e)
                     x == IF r = <<>> THEN <<>> ELSE Convert(Wide(kd = 0, IF kd = 0 THEN Unzig(r[1]) ELSE r[1]), sg, w)
                 IN IF r = <<>> THEN <<>>
                    ELSE IF k = "f" THEN (IF kd = 2 /\ lw = WidthLog(w) THEN r ELSE <<>>)
                    ELSE IF kd > 1 \/ Len(x) = 0 THEN <<>> ELSE <<x[1], r[2]>>
CodeOf(v) == IF v[4] # 0 \/ v[3] > 16 THEN -1 ELSE v[1] + (256 * v[2]) + (65536 * v[3])
DecChar(c, b, p, e) ==
  Some1(Map1(IF c.f = "desc" THEN (IF p > e \/ b[p] # Mark(5) THEN <<>> ELSE VarDec(4, b, p + 1, e)) ELSE DecInt(c, "u", 4, b, p, e), CodeOf), Scalar)
DecBool(c, b, p, e) ==
  IF p > e THEN <<>>
  ELSE LET z == IF c.f = "storage" THEN 0 ELSE IF c.f = "wire" THEN 192 ELSE Mark(3)
           o == IF c.f = "desc" THEN Mark(2) ELSE z + 1
       IN IF b[p] = z THEN <<0, p + 1>> ELSE IF b[p] = o THEN <<1, p + 1>> ELSE <<>>
DecBlob(c, str, b, p, e) == LET n == BlobLen(c, str, b, p, e) IN IF n = <<>> THEN <<>> ELSE Raw(n[1], b, n[2], e)
DecStr(c, b, p, e) == Some1(DecBlob(c, TRUE, b, p, e), Utf8Valid)
DecArray(c, n, b, p, e) == IF c.f = "storage" THEN Raw(n, b, p, e) ELSE Some1(DecBlob(c, FALSE, b, p, e), LAMBDA s : Len(s) = n)
VarHead(c, b, p, e) == IF c.f = "storage" THEN p ELSE IF p <= e /\ b[p] = (IF c.f = "wire" THEN 130 ELSE Mark(4)) THEN p + 1 ELSE 0

\* skip n values of unknown shape: 0 or the position after them
RECURSIVE Skip(_, _, _, _, _)
Skip(c, n, b, p, e) ==
  IF n = 0 THEN p
  ELSE IF p > e \/ c.f = "storage" THEN 0
  ELSE LET next(r, more) == IF r = <<>> THEN 0 ELSE Skip(c, n - 1 + more, b, r[2], e)
           skipBlob(r) == IF r = <<>> \/ r[2] + r[1] - 1 > e THEN 0 ELSE Skip(c, n - 1, b, r[2] + r[1], e)
           t == b[p]
       IN IF c.f = "wire"
          THEN CASE t < 64 -> 0
                 [] t < 128 -> skipBlob(TagLen(c, 64, 63, b, p, e))
                 [] t < 192 -> LET r == TagLen(c, 128, 63, b, p, e) IN IF r = <<>> THEN 0 ELSE next(r, Min2(r[1], Len(b) + 1))
                 [] t < 255 -> Skip(c, n - 1, b, p + 1, e)
                 [] OTHER -> next(VarDec(16, b, p + 1, e), 0)
          ELSE CASE t < 64 -> 0
                 [] t < 96 -> next(VarDec(16, b, p + 1, e), 0)
                 [] t < 128 -> LET r == TagLen(c, 96, 31, b, p, e) IN IF r = <<>> THEN 0 ELSE next(r, Min2(r[1], Len(b) + 1))
                 [] t < 160 -> LET r == TagLen(c, 128, 31, b, p, e) IN IF r = <<>> THEN 0 ELSE next(r, 2 * Min2(r[1], Len(b) + 1))
                 [] t < 192 -> skipBlob(TagLen(c, 160, 31, b, p, e))
                 [] t < 224 -> skipBlob(TagLen(c, 192, 31, b, p, e))
                 [] (t % 8) = 4 -> Skip(c, n + 1, b, p + 1, e)
                 [] (t % 8) = 1 -> Skip(c, n, b, p + 1, e)
                 [] (t % 8) = 5 -> next(VarDec(4, b, p + 1, e), 0)
                 [] OTHER -> Skip(c, n - 1, b, p + 1, e)
\* after reading n of m elements
SeqEnd(c, r, n, m, b, e) == \* r: result so far
  IF r = <<>> THEN <<>>
  ELSE IF m = n THEN r
  ELSE IF m < n THEN <<>>
  ELSE LET q == Skip(c, Min2(m - n, Len(b) + 1), b, r[2], e) IN IF q = 0 THEN <<>> ELSE <<r[1], q>>

-----------------------------------------------------------------------------
\* order of keys
RECURSIVE LessLE(_, _, _)
LessLE(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessLE(a, b, i - 1)
KeyLess(t, a, b) ==
  CASE t.k \in {"u", "us"} -> LessLE(a, b, Len(a))
    [] t.k = "i" -> IF Neg(a) # Neg(b) THEN Neg(a) ELSE LessLE(a, b, Len(a))
    [] OTHER -> Less(a, b)
RECURSIVE Insert(_, _, _), InsertAll(_, _, _)
\* insert an entry <<key, ...>> into sorted entries, replacing one with the same key
Insert(t, s, x) ==
  IF s = <<>> THEN <<x>>
  ELSE IF s[1][1] = x[1] THEN <<x>> \o Tail(s)
  ELSE IF KeyLess(t, x[1], s[1][1]) THEN <<x>> \o s
  ELSE <<s[1]>> \o Insert(t, Tail(s), x)
InsertAll(t, xs, acc) == IF xs = <<>> THEN acc ELSE InsertAll(t, Tail(xs), Insert(t, acc, xs[1]))
Entries(t, xs) == InsertAll(t, xs, <<>>)
RECURSIVE InsertMulti(_, _, _), SortMulti(_, _, _)
InsertMulti(t, s, x) == IF s = <<>> THEN <<x>> ELSE IF KeyLess(t, s[1], x) THEN <<s[1]>> \o InsertMulti(t, Tail(s), x) ELSE <<x>> \o s
SortMulti(t, xs, acc) == IF xs = <<>> THEN acc ELSE SortMulti(t, Tail(xs), InsertMulti(t, acc, xs[1]))
\* the elements of a set, or of a heap, in order
SetOf(t, vs) == IF "multi" \in DOMAIN t THEN SortMulti(t.t, vs, <<>>)
                ELSE LET s == Entries(t.t, [i \in 1..Len(vs) |-> <<vs[i]>>]) IN [i \in 1..Len(s) |-> s[i][1]]

-----------------------------------------------------------------------------
RECURSIVE Capture(_, _), DescAny(_, _, _), DescAnyN(_, _, _, _, _), Dec(_, _, _, _, _, _), DecN(_, _, _, _, _, _, _), DecTs(_, _, _, _, _, _, _), DecKV(_, _, _, _, _, _, _, _), DecDecl(_, _, _, _, _),
          DecVDecl(_, _, _), DecBody(_, _, _, _, _), DecFields(_, _, _, _, _, _, _), DecFieldsSeq(_, _, _, _, _, _), DecField(_, _, _, _, _), DecUntagged(_, _, _, _, _, _)
\* n values of type t (offered for bitwise copying)
DecN(c, t, n, b, p, e, acc) ==
  IF n = 0 THEN <<acc, p>>
  ELSE LET r == Dec(c, t, TRUE, b, p, e) IN IF r = <<>> THEN <<>> ELSE DecN(c, t, n - 1, b, r[2], e, acc \o <<r[1]>>)
\* one value of each type
DecTs(c, ts, i, b, p, e, acc) ==
  IF i > Len(ts) THEN <<acc, p>>
  ELSE LET r == Dec(c, ts[i], TRUE, b, p, e) IN IF r = <<>> THEN <<>> ELSE DecTs(c, ts, i + 1, b, r[2], e, acc \o <<r[1]>>)
DecKV(c, kt, vt, n, b, p, e, acc) ==
  IF n = 0 THEN <<acc, p>>
  ELSE LET k == Dec(c, kt, TRUE, b, p, e)
       IN IF k = <<>> THEN <<>>
          ELSE LET v == Dec(c, vt, TRUE, b, k[2], e)
               IN IF v = <<>> THEN <<>> ELSE DecKV(c, kt, vt, n - 1, b, v[2], e, acc \o <<<<k[1], v[1]>>>>)
DecEmpty(c, b, p, e) ==
  IF c.f = "storage" THEN Map1(Some1(DecLen(c, b, p, e), LAMBDA n : n = 0), LAMBDA n : <<>>)
  ELSE LET q == Skip(c, 1, b, p, e) IN IF q = 0 THEN <<>> ELSE <<<<>>, q>>
\* inside of a pack: the limit it ends at, or 0; <<first, last>>
PackRange(c, b, p, e) ==
  IF c.f = "storage" THEN <<p, e>>
  ELSE LET r == BlobLen(c, FALSE, b, p, e) IN IF r = <<>> \/ r[2] + r[1] - 1 > e THEN <<>> ELSE <<r[2], r[2] + r[1] - 1>>
PackEnd(c, r, range) == IF r = <<>> \/ c.f = "storage" THEN r ELSE <<r[1], range[2] + 1>>

\* the number of a two-variant standard tag
StdName(c, names, b, p, e) ==
  IF c.m = "Text"
  THEN LET r == DecStr(c, b, p, e) IN IF r = <<>> \/ r[1] \notin {names[1], names[2]} THEN <<>> ELSE <<IF r[1] = names[1] THEN 0 ELSE 1, r[2]>>
  ELSE LET r == DecInt(c, "us", 8, b, p, e) IN IF r = <<>> \/ Small(r[1]) > 1 THEN <<>> ELSE <<r[1][1], r[2]>>

DecIp(c, k, b, p, e) ==
  IF c.m # "Text" THEN DecArray(c, IF k = "ip4" THEN 4 ELSE 16, b, p, e)
  ELSE Map1(Some1(Map1(DecStr(c, b, p, e), LAMBDA s : IF k = "ip4" THEN Ip4Parse(s) ELSE Ip6Parse(s)), LAMBDA x : Len(x) = 1), LAMBDA x : x[1])
DecSock(c, k, b, p, e) ==
  IF c.m = "Text" THEN Map1(Some1(Map1(DecStr(c, b, p, e), LAMBDA s : IF k = "sock4" THEN Sock4Parse(s) ELSE Sock6Parse(s)), LAMBDA x : Len(x) = 1), LAMBDA x : x[1])
  ELSE LET g == PackRange(c, b, p, e) IN IF g = <<>> THEN <<>> ELSE PackEnd(c, DecTs(Pk(c), SockTypes(k), 1, b, g[1], g[2], <<>>), g)
Dec(c, t, fast, b, p, e) ==
  CASE t.k \in {"u", "i", "us", "is", "f"} -> DecInt(c, t.k, t.w, b, p, e)
    [] t.k = "bool" -> DecBool(c, b, p, e)
    [] t.k = "char" -> DecChar(c, b, p, e)
    [] t.k = "unit" -> IF fast /\ Bitwise(c) THEN <<<<>>, p>> ELSE DecEmpty(c, b, p, e)
    [] t.k = "rfull" -> LET n == SeqLen(c, b, p, e) IN IF n = <<>> THEN <<>> ELSE SeqEnd(c, <<<<>>, n[2]>>, 0, n[1], b, e)
    [] t.k = "str" -> DecStr(c, b, p, e)
    [] t.k = "cstr" -> Map1(Some1(DecBlob(c, FALSE, b, p, e), LAMBDA s : Len(s) > 0 /\ s[Len(s)] = 0 /\ \A i \in 1..(Len(s) - 1) : s[i] # 0), LAMBDA s : Take(s, Len(s) - 1))
    [] t.k \in {"ip4", "ip6"} -> DecIp(c, t.k, b, p, e)
    [] t.k = "ip" ->
         LET h == VarHead(c, b, p, e)
             n == IF h = 0 THEN <<>> ELSE StdName(c, <<IpTag("Text", 0)[2], IpTag("Text", 1)[2]>>, b, h, e)
         IN IF n = <<>> THEN <<>> ELSE Map1(DecIp(c, IF n[1] = 0 THEN "ip4" ELSE "ip6", b, n[2], e), LAMBDA v : <<n[1], v>>)
    [] t.k \in {"sock4", "sock6"} -> DecSock(c, t.k, b, p, e)
    [] t.k = "sock" ->
         LET h == VarHead(c, b, p, e)
             n == IF h = 0 THEN <<>> ELSE StdName(c, <<SockTag("Text", 0)[2], SockTag("Text", 1)[2]>>, b, h, e)
         IN IF n = <<>> THEN <<>> ELSE Map1(DecSock(c, IF n[1] = 0 THEN "sock4" ELSE "sock6", b, n[2], e), LAMBDA v : <<n[1], v>>)
    [] t.k = "rbytes" -> DecBlob(c, FALSE, b, p, e)
    [] t.k = "path" ->
         LET h == VarHead(c, b, p, e)
             n == IF h = 0 THEN <<>> ELSE StdName(c, <<UnixTag("Text")[2], <<>>>>, b, h, e)
         IN IF n = <<>> \/ n[1] # 0 THEN <<>> ELSE DecBlob(c, FALSE, b, n[2], e)
    [] t.k = "nz" -> Some1(Dec(c, t.t, fast, b, p, e), LAMBDA v : ~AllZero(v))
    [] t.k = "opt" ->
         (IF c.f = "storage" /\ c.pk
          THEN (IF p > e THEN <<<<>>, p>> ELSE Map1(Dec(c, t.t, TRUE, b, p, e), LAMBDA v : <<v>>))
          ELSE IF p > e THEN <<>>
          ELSE LET z == IF c.f = "storage" THEN 0 ELSE IF c.f = "wire" THEN 128 ELSE Mark(0)
               IN IF b[p] = z THEN <<<<>>, p + 1>> ELSE IF b[p] = z + 1 THEN Map1(Dec(c, t.t, TRUE, b, p + 1, e), LAMBDA v : <<v>>) ELSE <<>>)
    [] t.k = "seq" -> LET n == SeqLen(c, b, p, e) IN IF n = <<>> THEN <<>> ELSE DecN(c, t.t, n[1], b, n[2], e, <<>>)
    [] t.k = "set" -> LET n == SeqLen(c, b, p, e)
                      IN IF n = <<>> THEN <<>> ELSE Map1(DecN(c, t.t, n[1], b, n[2], e, <<>>), LAMBDA vs : SetOf(t, vs))
    [] t.k = "map" -> LET n == MapLen(c, b, p, e) IN IF n = <<>> THEN <<>> ELSE Map1(DecKV(c, t.kt, t.vt, n[1], b, n[2], e, <<>>), LAMBDA xs : Entries(t.kt, xs))
    [] t.k \in {"tup", "rng"} -> LET n == SeqLen(c, b, p, e)
                                 IN IF n = <<>> \/ n[1] < Len(t.ts) THEN <<>> ELSE SeqEnd(c, DecTs(c, t.ts, 1, b, n[2], e, <<>>), Len(t.ts), n[1], b, e)
    [] t.k = "arr" -> IF fast /\ Bitwise(c) /\ BitD(t) THEN DecN(c, t.t, t.n, b, p, e, <<>>)
                      ELSE LET n == SeqLen(c, b, p, e) IN IF n = <<>> \/ n[1] # t.n THEN <<>> ELSE DecN(c, t.t, t.n, b, n[2], e, <<>>)
    [] t.k = "res" ->
         LET h == VarHead(c, b, p, e)
             n == IF h = 0 THEN <<>> ELSE StdName(c, <<OkId, ErrId>>, b, h, e)
         IN IF n = <<>> THEN <<>> ELSE Map1(Dec(c, IF n[1] = 0 THEN t.t ELSE t.e, TRUE, b, n[2], e), LAMBDA v : <<n[1], v>>)
    [] t.k = "w" -> Dec(c, t.t, FALSE, b, p, e)
    [] t.k = "d" -> DecDecl(c, t.n, b, p, e)

\* a field or variant name of the container: its number among xs, or 0; position
NameHit(c, as, xs, name) ==
  LET live(i) == ~("t" \in DOMAIN xs[i] /\ Has(xs[i].attrs, c.d, "skip"))
      hits == {i \in 1..Len(xs) : live(i) /\ \E j \in 1..Len(Patterns(c.d, as, xs[i])) : Patterns(c.d, as, xs[i])[j] = name}
  IN IF hits = {} THEN 0 ELSE MinOf(hits)
DecName(c, as, xs, b, p, e) ==
  LET kind == NameKind(c.d, as, xs)
      r == IF kind = "us" THEN DecInt(c, "us", 8, b, p, e) ELSE DecStr(c, b, p, e)
  IN Map1(r, LAMBDA s : NameHit(c, as, xs, IF kind = "us" THEN UsT(s) ELSE StrT(s)))
DefaultVariant(c, d) == LET s == {i \in 1..Len(d.vars) : Has(d.vars[i].attrs, c.d, "default")} IN IF s = {} THEN 0 ELSE MinOf(s)

DecDecl(c, dn, b, p, e) ==
  LET d == Decl(dn)
  IN IF d.k = "struct"
     THEN IF Bitwise(c) /\ BitDecl(dn) /\ BitD([k |-> "d", n |-> dn]) /\ Packing(c.d, d.attrs) = "packed"
          THEN DecTs(c, [i \in 1..Len(d.fields) |-> d.fields[i].t], 1, b, p, e, <<>>)
          ELSE DecBody(c, d, b, p, e)
     ELSE LET tag == Tagging(c.d, d)
          IN CASE tag = "untagged" -> DecUntagged(c, d, 1, b, p, e)
               [] tag = "name" -> LET r == DecName(c, d.attrs, d.vars, b, p, e)
                                      i == IF r = <<>> THEN 0 ELSE IF r[1] = 0 THEN DefaultVariant(c, d) ELSE r[1]
                                  IN IF i = 0 THEN <<>> ELSE <<<<i - 1, <<>>>>, r[2]>>
               [] tag = "external" ->
                    LET h == VarHead(c, b, p, e)
                        r == IF h = 0 THEN <<>> ELSE DecName(c, d.attrs, d.vars, b, h, e)
                        dv == DefaultVariant(c, d)
                    IN IF r = <<>> THEN <<>>
                       ELSE IF r[1] # 0 THEN Map1(DecBody(c, d.vars[r[1]], b, r[2], e), LAMBDA v : <<r[1] - 1, v>>)
                       ELSE IF dv = 0 THEN <<>>
                       ELSE LET q == Skip(c, 1, b, r[2], e) IN IF q = 0 THEN <<>> ELSE <<<<dv - 1, <<>>>>, q>>
               [] tag = "internal" ->
                    \* buffered as a dynamic value
                    LET r == IF c.f = "desc" THEN DescAny(b, p, e) ELSE <<>>
                        v == IF r = <<>> THEN <<>> ELSE DecVDecl(c, dn, r[1])
                    IN IF v = <<>> THEN <<>> ELSE <<v[1], r[2]>>
               [] tag = "adjacent" ->
                    LET n == MapLen(c, b, p, e)
                        tagName == Lit(Attr(d.attrs, c.d, "tag")[1])
                        cName == Lit(Attr(d.attrs, c.d, "content")[1])
                        key(q) == IF tagName[1] = "str" THEN DecStr(c, b, q, e) ELSE DecInt(c, "us", 8, b, q, e)
                        \* st: the variant found so far
                        Walk[q \in 1..(e + 1), left \in 0..(e + 1), st \in 0..Len(d.vars)] ==
                          IF left = 0 THEN <<>>
                          ELSE LET k == key(q)
                               IN IF k = <<>> THEN <<>>
                                  ELSE IF k[1] = tagName[Len(tagName)]
                                  THEN LET x == DecName(c, d.attrs, d.vars, b, k[2], e) IN IF x = <<>> \/ x[1] = 0 THEN <<>> ELSE Walk[x[2], left - 1, x[1]]
                                  ELSE IF k[1] = cName[Len(cName)]
                                  THEN (IF st = 0 THEN <<>>
                                        ELSE LET v == DecBody(c, d.vars[st], b, k[2], e)
                                                 s == IF v = <<>> THEN 0 ELSE IF left = 1 THEN v[2] ELSE Skip(c, 2 * (left - 1), b, v[2], e)
                                             IN IF s = 0 THEN <<>> ELSE <<<<st - 1, v[1]>>, s>>)
                                  ELSE LET s == Skip(c, 1, b, k[2], e) IN IF s = 0 THEN <<>> ELSE Walk[s, left - 1, st]
                    IN IF n = <<>> \/ n[2] > e THEN <<>> ELSE Walk[n[2], Min2(n[1], e + 1), 0]
DecUntagged(c, d, i, b, p, e) ==
  IF i > Len(d.vars) THEN <<>>
  ELSE LET r == DecBody(c, d.vars[i], b, p, e)
       IN IF r # <<>> THEN <<<<i - 1, r[1]>>, r[2]>> ELSE DecUntagged(c, d, i + 1, b, p, e)

DecField(c, f, b, p, e) ==
  IF Has(f.attrs, c.d, "with")
  THEN (IF Attr(f.attrs, c.d, "with")[1] = "wide" THEN Map1(Some1(DecInt(c, "u", 8, b, p, e), LAMBDA v : AllZero(Drop(v, 4))), LAMBDA v : Take(v, 4))
        ELSE Map1(Dec(c, [k |-> "seq", t |-> [k |-> "char"]], TRUE, b, p, e), LAMBDA cs : Flat([i \in 1..Len(cs) |-> Utf8(cs[Len(cs) + 1 - i])])))
  ELSE IF Has(f.attrs, c.d, "bytes")
  THEN Map1(IF f.t.k = "arr" THEN DecArray(c, f.t.n, b, p, e) ELSE DecBlob(c, FALSE, b, p, e), LAMBDA s : [i \in 1..Len(s) |-> <<s[i]>>])
  ELSE IF Has(f.attrs, c.d, "packed")
  THEN LET g == PackRange(c, b, p, e)
           ts == IF f.t.k = "arr" THEN [i \in 1..f.t.n |-> f.t.t] ELSE f.t.ts
       IN IF g = <<>> THEN <<>> ELSE PackEnd(c, DecTs(Pk(c), ts, 1, b, g[1], g[2], <<>>), g)
  ELSE Dec(c, f.t, FALSE, b, p, e)
\* the fields of a pack, one after the other
DecFieldsSeq(c, fs, i, b, p, e) ==
  IF i > Len(fs) THEN <<<<>>, p>>
  ELSE LET r == IF Has(fs[i].attrs, c.d, "skip") THEN <<FieldDefault(c.d, fs[i]), p>> ELSE DecField(c, fs[i], b, p, e)
           q == IF r = <<>> THEN <<>> ELSE DecFieldsSeq(c, fs, i + 1, b, r[2], e)
       IN IF q = <<>> THEN <<>> ELSE <<<<r[1]>> \o q[1], q[2]>>
\* the entries of a map; got: the fields read so far
DecFields(c, st, n, b, p, e, got) ==
  IF n = 0 THEN <<got, p>>
  ELSE LET k == DecName(c, st.attrs, st.fields, b, p, e)
       IN IF k = <<>> THEN <<>>
          ELSE IF k[1] = 0
          THEN LET s == Skip(c, 1, b, k[2], e) IN IF s = 0 THEN <<>> ELSE DecFields(c, st, n - 1, b, s, e, got)
          ELSE LET r == DecField(c, st.fields[k[1]], b, k[2], e)
               IN IF r = <<>> THEN <<>> ELSE DecFields(c, st, n - 1, b, r[2], e, [got EXCEPT ![k[1]] = <<r[1]>>])
DecBody(c, st, b, p, e) ==
  LET pk == Packing(c.d, st.attrs)
      fs == st.fields
  IN IF st.style = "unit" /\ pk # "packed"
     THEN LET n == MapLen(c, b, p, e) IN IF n = <<>> THEN <<>> ELSE SeqEnd(c, <<<<>>, n[2]>>, 0, IF c.f = "storage" THEN n[1] ELSE 2 * Min2(n[1], Len(b) + 1), b, e)
     ELSE CASE pk = "packed" -> LET g == PackRange(c, b, p, e) IN IF g = <<>> THEN <<>> ELSE PackEnd(c, DecFieldsSeq(Pk(c), fs, 1, b, g[1], g[2]), g)
       [] pk = "transparent" ->
            LET i == CHOOSE i \in 1..Len(fs) : ~Has(fs[i].attrs, c.d, "skip")
                r == DecField(c, fs[i], b, p, e)
            IN IF r = <<>> THEN <<>> ELSE <<[j \in 1..Len(fs) |-> IF j = i THEN r[1] ELSE FieldDefault(c.d, fs[j])], r[2]>>
       [] OTHER ->
            LET n == MapLen(c, b, p, e)
                r == IF n = <<>> THEN <<>> ELSE DecFields(c, st, Min2(n[1], Len(b) + 1), b, n[2], e, [i \in 1..Len(fs) |-> <<>>])
            IN IF r = <<>> THEN <<>>
               ELSE IF \E i \in 1..Len(fs) : Len(r[1][i]) = 0 /\ ~Defaulted(c.d, fs[i]) THEN <<>>
               ELSE <<[i \in 1..Len(fs) |-> IF Len(r[1][i]) = 0 THEN FieldDefault(c.d, fs[i]) ELSE r[1][i][1]], r[2]>>

-----------------------------------------------------------------------------
(* Dynamic values: terms whose kinds are int bool char str bytes unit none   *)
(* some seq map var.                                                          *)
\* the dynamic value capturing a term
Capture(c, t) ==
  LET all(ts) == [i \in 1..Len(ts) |-> Capture(c, ts[i])]
      k == t[1]
  IN CASE k \in {"empty", "fempty"} -> <<"unit">>
       [] k = "array" -> <<"bytes", t[2]>>
       [] k = "some" -> <<"some", Capture(c, t[2])>>
       [] k \in {"seq", "fseq"} -> <<"seq", all(t[2])>>
       [] k = "map" -> <<"map", [i \in 1..Len(t[2]) |-> <<Capture(c, t[2][i][1]), Capture(c, t[2][i][2])>>]>>
       [] k = "var" -> <<"var", Capture(c, t[2]), Capture(c, t[3])>>
       [] k = "pack" -> <<"bytes", EncAll(Pk(c), t[2])>>
       [] k = "fpack" -> <<"bytes", EncAll(Pk(c), t[3])>>
       [] OTHER -> t
\* the term a dynamic value is written as
RECURSIVE Replay(_)
Replay(x) ==
  LET k == x[1]
  IN CASE k = "unit" -> <<"empty">>
       [] k = "some" -> <<"some", Replay(x[2])>>
       [] k = "seq" -> <<"seq", [i \in 1..Len(x[2]) |-> Replay(x[2][i])]>>
       [] k = "map" -> <<"map", [i \in 1..Len(x[2]) |-> <<Replay(x[2][i][1]), Replay(x[2][i][2])>>]>>
       [] k = "var" -> <<"var", Replay(x[2]), Replay(x[3])>>
       [] OTHER -> x
\* a platform-sized integer is written with the width it has
RECURSIVE Sized(_)
Sized(x) ==
  LET k == x[1]
  IN CASE k = "int" -> <<"int", IF x[2] = "us" THEN "u" ELSE IF x[2] = "is" THEN "i" ELSE x[2], x[3], x[4]>>
       [] k = "some" -> <<"some", Sized(x[2])>>
       [] k = "seq" -> <<"seq", [i \in 1..Len(x[2]) |-> Sized(x[2][i])]>>
       [] k = "map" -> <<"map", [i \in 1..Len(x[2]) |-> <<Sized(x[2][i][1]), Sized(x[2][i][2])>>]>>
       [] k = "var" -> <<"var", Sized(x[2]), Sized(x[3])>>
       [] OTHER -> x
\* the dynamic value in a descriptive byte string
DC == Codec("desc", "Binary", "d")
DescAnyN(n, b, p, e, acc) ==
  IF n = 0 THEN <<acc, p>>
  ELSE LET r == DescAny(b, p, e) IN IF r = <<>> THEN <<>> ELSE DescAnyN(n - 1, b, r[2], e, acc \o <<r[1]>>)
DescAny(b, p, e) ==
  IF p > e THEN <<>>
  ELSE LET x == b[p]
       IN CASE x < 64 -> <<>>
            [] x < 96 -> Map1(DescNumber(b, p, e), LAMBDA r : <<"int", r[1], r[2], r[3]>>)
            [] x < 128 -> LET n == SeqLen(DC, b, p, e)
                          IN IF n = <<>> THEN <<>> ELSE Map1(DescAnyN(Min2(n[1], Len(b) + 1), b, n[2], e, <<>>), LAMBDA xs : <<"seq", xs>>)
            [] x < 160 -> LET n == MapLen(DC, b, p, e)
                          IN IF n = <<>> THEN <<>> ELSE Map1(DescAnyN(2 * Min2(n[1], Len(b) + 1), b, n[2], e, <<>>), LAMBDA xs : <<"map", [i \in 1..(Len(xs) \div 2) |-> <<xs[(2 * i) - 1], xs[2 * i]>>]>>)
            [] x < 192 -> Map1(DecBlob(DC, FALSE, b, p, e), LAMBDA s : <<"bytes", s>>)
            [] x < 224 -> Map1(DecStr(DC, b, p, e), LAMBDA s : <<"str", s>>)
            [] (x % 8) = 0 -> <<<<"none">>, p + 1>>
            [] (x % 8) = 1 -> Map1(DescAny(b, p + 1, e), LAMBDA v : <<"some", v>>)
            [] (x % 8) \in {2, 3} -> Map1(DecBool(DC, b, p, e), LAMBDA v : <<"bool", v>>)
            [] (x % 8) = 4 -> Map1(DescAnyN(2, b, p + 1, e, <<>>), LAMBDA xs : <<"var", xs[1], xs[2]>>)
            [] (x % 8) = 5 -> Map1(DecChar(DC, b, p, e), LAMBDA v : <<"char", v>>)
            [] (x % 8) = 6 -> <<<<"unit">>, p + 1>>
            [] OTHER -> <<>>

\* Reading a dynamic value as a type: <<>> or <<value>>
OkAll(rs) == IF \E i \in 1..Len(rs) : Len(rs[i]) = 0 THEN <<>> ELSE <<[i \in 1..Len(rs) |-> rs[i][1]]>>
Map0(r, F(_)) == IF Len(r) = 0 THEN <<>> ELSE <<F(r[1])>>
RECURSIVE DecV(_, _, _), DecVBody(_, _, _), DecVField(_, _, _), DecVFold(_, _, _, _)
VInt(k, w, x) ==
  IF x[1] # "int" THEN <<>>
  ELSE IF k = "f" THEN (IF x[2] = "f" /\ x[3] = w THEN <<x[4]>> ELSE <<>>)
  ELSE IF x[2] = "f" THEN <<>>
  ELSE Convert(Wide(x[2] \in {"i", "is"}, x[4]), k \in {"i", "is"}, w)
VKind(x, kind, F(_)) == IF x[1] # kind THEN <<>> ELSE F(x[2])
VName(c, as, xs, x) ==
  IF NameKind(c.d, as, xs) = "us"
  THEN (LET n == VInt("us", 8, x) IN IF Len(n) = 0 THEN <<>> ELSE <<NameHit(c, as, xs, UsT(n[1]))>>)
  ELSE VKind(x, "str", LAMBDA s : <<NameHit(c, as, xs, StrT(s))>>)
VStd(c, names, x) ==
  IF c.m = "Text" THEN VKind(x, "str", LAMBDA s : IF s = names[1] THEN <<0>> ELSE IF s = names[2] THEN <<1>> ELSE <<>>)
  ELSE LET n == VInt("us", 8, x) IN IF Len(n) = 0 THEN <<>> ELSE IF Small(n[1]) > 1 THEN <<>> ELSE <<n[1][1]>>
VIp(c, k, x) ==
  IF c.m = "Text" THEN VKind(x, "str", LAMBDA s : IF k = "ip4" THEN Ip4Parse(s) ELSE Ip6Parse(s))
  ELSE VKind(x, "bytes", LAMBDA s : IF Len(s) = (IF k = "ip4" THEN 4 ELSE 16) THEN <<s>> ELSE <<>>)
VPack(x, F(_)) == VKind(x, "bytes", LAMBDA s : LET r == F(s) IN IF r = <<>> THEN <<>> ELSE <<r[1]>>)
VSock(c, k, x) ==
  IF c.m = "Text" THEN VKind(x, "str", LAMBDA s : IF k = "sock4" THEN Sock4Parse(s) ELSE Sock6Parse(s))
  ELSE VPack(x, LAMBDA s : DecTs(Pk(c), SockTypes(k), 1, s, 1, Len(s), <<>>))
DecV(c, t, x) ==
  CASE t.k \in {"u", "i", "us", "is", "f"} -> VInt(t.k, t.w, x)
    [] t.k = "bool" -> VKind(x, "bool", LAMBDA v : <<v>>)
    [] t.k = "char" -> VKind(x, "char", LAMBDA v : <<v>>)
    [] t.k = "unit" -> IF x[1] = "unit" THEN <<<<>>>> ELSE <<>>
    [] t.k = "rfull" -> IF x[1] = "seq" THEN <<<<>>>> ELSE <<>>
    [] t.k = "str" -> VKind(x, "str", LAMBDA v : <<v>>)
    [] t.k = "cstr" -> VKind(x, "bytes", LAMBDA s : IF Len(s) > 0 /\ s[Len(s)] = 0 /\ (\A i \in 1..(Len(s) - 1) : s[i] # 0) THEN <<Take(s, Len(s) - 1)>> ELSE <<>>)
    [] t.k \in {"ip4", "ip6"} -> VIp(c, t.k, x)
    [] t.k = "ip" -> IF x[1] # "var" THEN <<>>
                     ELSE LET n == VStd(c, <<IpTag("Text", 0)[2], IpTag("Text", 1)[2]>>, x[2])
                          IN IF Len(n) = 0 THEN <<>> ELSE Map0(VIp(c, IF n[1] = 0 THEN "ip4" ELSE "ip6", x[3]), LAMBDA v : <<n[1], v>>)
    [] t.k \in {"sock4", "sock6"} -> VSock(c, t.k, x)
    [] t.k = "sock" -> IF x[1] # "var" THEN <<>>
                       ELSE LET n == VStd(c, <<SockTag("Text", 0)[2], SockTag("Text", 1)[2]>>, x[2])
                            IN IF Len(n) = 0 THEN <<>> ELSE Map0(VSock(c, IF n[1] = 0 THEN "sock4" ELSE "sock6", x[3]), LAMBDA v : <<n[1], v>>)
    [] t.k = "rbytes" -> VKind(x, "bytes", LAMBDA s : <<s>>)
    [] t.k = "path" -> IF x[1] # "var" THEN <<>>
                       ELSE LET n == VStd(c, <<UnixTag("Text")[2], <<>>>>, x[2])
                            IN IF Len(n) = 0 THEN <<>> ELSE IF n[1] # 0 THEN <<>> ELSE VKind(x[3], "bytes", LAMBDA v : <<v>>)
    [] t.k = "nz" -> LET r == DecV(c, t.t, x) IN IF Len(r) = 0 THEN <<>> ELSE IF AllZero(r[1]) THEN <<>> ELSE r
    [] t.k = "opt" -> IF x[1] = "none" THEN <<<<>>>> ELSE IF x[1] = "some" THEN Map0(DecV(c, t.t, x[2]), LAMBDA v : <<v>>) ELSE <<>>
    [] t.k = "seq" -> VKind(x, "seq", LAMBDA xs : OkAll([i \in 1..Len(xs) |-> DecV(c, t.t, xs[i])]))
    [] t.k = "set" -> Map0(VKind(x, "seq", LAMBDA xs : OkAll([i \in 1..Len(xs) |-> DecV(c, t.t, xs[i])])),
                           LAMBDA vs : SetOf(t, vs))
    [] t.k = "map" -> Map0(VKind(x, "map", LAMBDA xs : OkAll([i \in 1..Len(xs) |-> OkAll(<<DecV(c, t.kt, xs[i][1]), DecV(c, t.vt, xs[i][2])>>)])),
                           LAMBDA xs : Entries(t.kt, xs))
    [] t.k \in {"tup", "rng"} -> VKind(x, "seq", LAMBDA xs : IF Len(xs) < Len(t.ts) THEN <<>> ELSE OkAll([i \in 1..Len(t.ts) |-> DecV(c, t.ts[i], xs[i])]))
    [] t.k = "arr" -> VKind(x, "seq", LAMBDA xs : IF Len(xs) # t.n THEN <<>> ELSE OkAll([i \in 1..t.n |-> DecV(c, t.t, xs[i])]))
    [] t.k = "res" -> IF x[1] # "var" THEN <<>>
                      ELSE LET n == VStd(c, <<OkId, ErrId>>, x[2])
                           IN IF Len(n) = 0 THEN <<>> ELSE Map0(DecV(c, IF n[1] = 0 THEN t.t ELSE t.e, x[3]), LAMBDA v : <<n[1], v>>)
    [] t.k = "w" -> DecV(c, t.t, x)
    [] t.k = "d" -> DecVDecl(c, t.n, x)
DecVDecl(c, dn, x) ==
  LET d == Decl(dn)
      tag == Tagging(c.d, d)
      dv == DefaultVariant(c, d)
      named(q) == LET n == VName(c, d.attrs, d.vars, q) IN IF Len(n) = 0 THEN 0 ELSE n[1]
      is(q, l) == LET n == IF l[1] = "str" THEN VKind(q, "str", LAMBDA s : <<s>>) ELSE VInt("us", 8, q) IN Len(n) = 1 /\ n[1] = l[Len(l)]
      readable(q, l) == IF l[1] = "str" THEN q[1] = "str" ELSE Len(VInt("us", 8, q)) = 1
      at(l) == LET s == {i \in 1..Len(x[2]) : is(x[2][i][1], l)} IN IF s = {} THEN 0 ELSE MinOf(s)
      fine(l, n) == \A i \in 1..n : readable(x[2][i][1], l)
      body(n, q) == Map0(DecVBody(c, d.vars[n], q), LAMBDA v : <<n - 1, v>>)
  IN IF d.k = "struct" THEN DecVBody(c, d, x)
     ELSE CASE tag = "untagged" ->
                 LET s == {i \in 1..Len(d.vars) : Len(DecVBody(c, d.vars[i], x)) = 1} IN IF s = {} THEN <<>> ELSE body(MinOf(s), x)
            [] tag = "name" -> LET n == VName(c, d.attrs, d.vars, x)
                                   i == IF Len(n) = 0 THEN 0 ELSE IF n[1] = 0 THEN dv ELSE n[1]
                               IN IF i = 0 THEN <<>> ELSE <<<<i - 1, <<>>>>>>
            [] tag = "external" ->
                 IF x[1] # "var" THEN <<>>
                 ELSE LET n == VName(c, d.attrs, d.vars, x[2])
                      IN IF Len(n) = 0 THEN <<>> ELSE IF n[1] # 0 THEN body(n[1], x[3]) ELSE IF dv = 0 THEN <<>> ELSE <<<<dv - 1, <<>>>>>>
            [] tag = "internal" ->
                 \* the first entry named by the tag selects the variant, the whole map is its body
                 IF x[1] # "map" THEN <<>>
                 ELSE LET l == Lit(Attr(d.attrs, c.d, "tag")[1])
                          i == at(l)
                          n == IF i = 0 THEN 0 ELSE IF ~fine(l, i) THEN 0 ELSE named(x[2][i][2])
                      IN IF n = 0 THEN <<>> ELSE body(n, x)
            [] tag = "adjacent" ->
                 IF x[1] # "map" THEN <<>>
                 ELSE LET l == Lit(Attr(d.attrs, c.d, "tag")[1])
                          m == Lit(Attr(d.attrs, c.d, "content")[1])
                          j == at(m)
                          is2 == {i \in 1..(j - 1) : is(x[2][i][1], l)}
                      IN IF j = 0 \/ is2 = {} THEN <<>>
                         ELSE IF ~fine(l, j) \/ \E i \in is2 : named(x[2][i][2]) = 0 THEN <<>>
                         ELSE body(named(x[2][MaxOf(is2)][2]), x[2][j][2])
DecVField(c, f, x) ==
  IF Has(f.attrs, c.d, "with")
  THEN (IF Attr(f.attrs, c.d, "with")[1] = "wide"
        THEN (LET r == VInt("u", 8, x) IN IF Len(r) = 0 THEN <<>> ELSE IF AllZero(Drop(r[1], 4)) THEN <<Take(r[1], 4)>> ELSE <<>>)
        ELSE Map0(DecV(c, [k |-> "seq", t |-> [k |-> "char"]], x), LAMBDA cs : Flat([i \in 1..Len(cs) |-> Utf8(cs[Len(cs) + 1 - i])])))
  ELSE IF Has(f.attrs, c.d, "bytes")
  THEN VKind(x, "bytes", LAMBDA s : IF f.t.k = "arr" /\ Len(s) # (IF f.t.k = "arr" THEN f.t.n ELSE 0) THEN <<>> ELSE <<[i \in 1..Len(s) |-> <<s[i]>>]>>)
  ELSE IF Has(f.attrs, c.d, "packed")
  THEN LET ts == IF f.t.k = "arr" THEN [i \in 1..f.t.n |-> f.t.t] ELSE f.t.ts
       IN VPack(x, LAMBDA s : DecTs(Pk(c), ts, 1, s, 1, Len(s), <<>>))
  ELSE DecV(c, f.t, x)
DecVFold(c, st, es, got) ==
  IF es = <<>> THEN <<got>>
  ELSE LET n == VName(c, st.attrs, st.fields, es[1][1])
       IN IF Len(n) = 0 THEN <<>>
          ELSE IF n[1] = 0 THEN DecVFold(c, st, Tail(es), got)
          ELSE LET r == DecVField(c, st.fields[n[1]], es[1][2])
               IN IF Len(r) = 0 THEN <<>> ELSE DecVFold(c, st, Tail(es), [got EXCEPT ![n[1]] = r])
DecVBody(c, st, x) ==
  LET pk == Packing(c.d, st.attrs)
      fs == st.fields
  IN IF st.style = "unit" /\ pk # "packed" THEN (IF x[1] = "map" THEN <<<<>>>> ELSE <<>>)
     ELSE CASE pk = "packed" -> VPack(x, LAMBDA s : DecFieldsSeq(Pk(c), fs, 1, s, 1, Len(s)))
       [] pk = "transparent" ->
            LET i == CHOOSE i \in 1..Len(fs) : ~Has(fs[i].attrs, c.d, "skip")
            IN Map0(DecVField(c, fs[i], x), LAMBDA v : [j \in 1..Len(fs) |-> IF j = i THEN v ELSE FieldDefault(c.d, fs[j])])
       [] OTHER ->
            IF x[1] # "map" THEN <<>>
            ELSE LET r == DecVFold(c, st, x[2], [i \in 1..Len(fs) |-> <<>>])
                 IN IF Len(r) = 0 THEN <<>>
                    ELSE IF \E i \in 1..Len(fs) : Len(r[1][i]) = 0 /\ ~Defaulted(c.d, fs[i]) THEN <<>>
                    ELSE <<[i \in 1..Len(fs) |-> IF Len(r[1][i]) = 0 THEN FieldDefault(c.d, fs[i]) ELSE r[1][i][1]]>>

-----------------------------------------------------------------------------
\* the value a byte string starts with, and what is left of it
Decode(c, t, b) == LET r == Dec(c, t, FALSE, b, 1, Len(b)) IN IF r = <<>> THEN <<>> ELSE <<r[1], Len(b) + 1 - r[2]>>
=============================================================================
