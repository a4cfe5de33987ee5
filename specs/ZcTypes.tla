------------------------------ MODULE ZcTypes ------------------------------
(* Layout, encoding and validity of zero-copy types: C layout with zero     *)
(* padding.  A value is a tree: a primitive is its little-endian bytes, an  *)
(* aggregate the tuple of its fields, an enum <<variant, fields...>>.       *)
EXTENDS Bytes

RECURSIVE FieldOffs(_, _, _)
\* offsets of fields laid out after byte position `at`
FieldOffs(ts, at, cap) ==
  IF ts = <<>> THEN <<>>
  ELSE LET o == AlignUp(at, Min2(Head(ts).al, cap))
       IN <<o>> \o FieldOffs(Tail(ts), o + Head(ts).sz, cap)
RECURSIVE MaxAl(_)
MaxAl(ts) == IF ts = <<>> THEN 1 ELSE Max2(Head(ts).al, MaxAl(Tail(ts)))
EndOf(ts, offs, at) == IF ts = <<>> THEN at ELSE offs[Len(ts)] + ts[Len(ts)].sz

IntT(n) == [k |-> "int", sz |-> n, al |-> n]
Nz(n) == [k |-> "nz", sz |-> n, al |-> n]
BoolT == [k |-> "bool", sz |-> 1, al |-> 1]
CharT == [k |-> "char", sz |-> 4, al |-> 4]
Arr(t, n) == [k |-> "arr", sz |-> t.sz * n, al |-> t.al, t |-> t, n |-> n]
\* cap: packing limit, min: minimum alignment
StructX(ts, cap, min) ==
  LET al == Max2(min, Min2(cap, MaxAl(ts)))
      offs == FieldOffs(ts, 0, cap)
  IN [k |-> "struct", al |-> al, sz |-> AlignUp(EndOf(ts, offs, 0), al), fs |-> ts, offs |-> offs]
Struct(ts) == StructX(ts, 4096, 1)
\* tag: size of the discriminant; disc: its little-endian bytes per variant
Enum(tag, disc, vars) ==
  LET al == Max2(tag, MaxOf({MaxAl(vars[i]) : i \in 1..Len(vars)}))
      offs == [i \in 1..Len(vars) |-> FieldOffs(vars[i], tag, 4096)]
      ends == {EndOf(vars[i], offs[i], tag) : i \in 1..Len(vars)}
  IN [k |-> "enum", al |-> al, sz |-> AlignUp(MaxOf(ends), al), tag |-> tag, disc |-> disc, vars |-> vars, offs |-> offs]

U8 == IntT(1)
U16 == IntT(2)
U32 == IntT(4)
U64 == IntT(8)
U128 == IntT(16)
Unit == Struct(<<>>)
S1 == Struct(<<U8, U32>>)
S2 == Struct(<<U8, U64, U16>>)
S3 == Struct(<<U16, S1, U8>>)
S4 == Struct(<<Arr(S1, 2), U128, BoolT>>)
P6 == StructX(<<U8, U32, U16>>, 1, 1)
P7 == StructX(<<U8, U8, U32, U8, U64>>, 2, 1)
S8 == Struct(<<Nz(2), BoolT, CharT>>)
E1 == Enum(1, <<<<0>>, <<1>>, <<2>>, <<3>>>>, <<<<>>, <<U32>>, <<U16, U8>>, <<BoolT, U16>>>>)
E2 == Enum(2, <<<<1, 0>>, <<44, 1>>, <<5, 0>>, <<2, 1>>>>, <<<<>>, <<>>, <<U64>>, <<>>>>)
E3 == Enum(1, <<<<253>>, <<254>>, <<7>>, <<8>>>>, <<<<>>, <<>>, <<>>, <<>>>>)
S9 == Struct(<<E1, U8, E2>>)
A10 == StructX(<<U8, U16>>, 4096, 16)
S11 == Struct(<<BoolT, BoolT, Nz(4), Arr(BoolT, 3)>>)

T == [u8 |-> U8, u16 |-> U16, u32 |-> U32, u64 |-> U64, u128 |-> U128, i16 |-> U16, i64 |-> U64, f32 |-> U32,
      bool |-> BoolT, char |-> CharT, nz8 |-> Nz(1), nz32 |-> Nz(4), nzi64 |-> Nz(8), nz128 |-> Nz(16), onz16 |-> U16,
      a3u16 |-> Arr(U16, 3), a2S1 |-> Arr(S1, 2), a4bool |-> Arr(BoolT, 4), unit |-> Unit,
      S1 |-> S1, S2 |-> S2, S3 |-> S3, S4 |-> S4, T5 |-> Struct(<<U32>>), P6 |-> P6, P7 |-> P7, S8 |-> S8, S9 |-> S9,
      A10 |-> A10, S11 |-> S11, Z12 |-> Unit, E1 |-> E1, E2 |-> E2, E3 |-> E3]

\* place parts (byte strings) at 0-based offsets in a zeroed area of n bytes
Place(parts, offs, n) ==
  LET Src(p) == {i \in 1..Len(parts) : p >= offs[i] /\ p < offs[i] + Len(parts[i])}
  IN [p \in 1..n |-> LET s == Src(p - 1) IN IF s = {} THEN 0 ELSE LET i == MinOf(s) IN parts[i][p - offs[i]]]

RECURSIVE Enc(_, _)
Enc(t, v) ==
  CASE t.k \in {"int", "nz", "bool", "char"} -> v
    [] t.k = "arr" -> Flat([i \in 1..t.n |-> Enc(t.t, v[i])])
    [] t.k = "struct" -> Place([i \in 1..Len(t.fs) |-> Enc(t.fs[i], v[i])], t.offs, t.sz)
    [] t.k = "enum" -> LET x == v[1] + 1 IN
         Place(<<t.disc[x]>> \o [i \in 1..Len(t.vars[x]) |-> Enc(t.vars[x][i], v[i + 1])], <<0>> \o t.offs[x], t.sz)

At(b, off, n) == SubSeq(b, off + 1, off + n)
VariantOf(t, b) == {x \in 1..Len(t.disc) : t.disc[x] = Take(b, t.tag)}

RECURSIVE Valid(_, _)
Valid(t, b) ==
  CASE t.k = "int" -> TRUE
    [] t.k = "nz" -> \E i \in 1..t.sz : b[i] # 0
    [] t.k = "bool" -> b[1] \in {0, 1}
    [] t.k = "char" -> /\ b[4] = 0 /\ b[3] <= 16
                       /\ ~(b[3] = 0 /\ b[2] >= 216 /\ b[2] <= 223)
    [] t.k = "arr" -> \A i \in 1..t.n : Valid(t.t, At(b, (i - 1) * t.t.sz, t.t.sz))
    [] t.k = "struct" -> \A i \in 1..Len(t.fs) : Valid(t.fs[i], At(b, t.offs[i], t.fs[i].sz))
    [] t.k = "enum" -> \E x \in VariantOf(t, b) : \A i \in 1..Len(t.vars[x]) : Valid(t.vars[x][i], At(b, t.offs[x][i], t.vars[x][i].sz))

RECURSIVE Dec(_, _)
Dec(t, b) ==
  CASE t.k \in {"int", "nz", "bool", "char"} -> b
    [] t.k = "arr" -> [i \in 1..t.n |-> Dec(t.t, At(b, (i - 1) * t.t.sz, t.t.sz))]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> Dec(t.fs[i], At(b, t.offs[i], t.fs[i].sz))]
    [] t.k = "enum" -> LET x == MinOf(VariantOf(t, b)) IN
         <<x - 1>> \o [i \in 1..Len(t.vars[x]) |-> Dec(t.vars[x][i], At(b, t.offs[x][i], t.vars[x][i].sz))]
=============================================================================
