------------------------------ MODULE Portable ------------------------------
(* Numbers and references in an explicit byte order and width.  Numbers are *)
(* little-endian byte sequences, so 64-bit offsets are exact.               *)
EXTENDS ZcTypes

SW == Struct(<<U16, U16, Arr(U32, 2), U64>>)
EW == Enum(2, <<<<1, 0>>, <<0, 1>>, <<44, 1>>, <<1, 44>>>>, <<<<U16>>, <<U16>>, <<>>, <<>>>>)
PT == [u8 |-> U8, u16 |-> U16, u32 |-> U32, u64 |-> U64, u128 |-> U128, usize |-> U64, i8 |-> U8, i16 |-> U16, i32 |-> U32, i64 |-> U64,
       i128 |-> U128, isize |-> U64, f32 |-> U32, f64 |-> U64, bool |-> U8, nz16 |-> U16, nz32 |-> U32, nzi64 |-> U64, nz128 |-> U128,
       onz16 |-> U16, onz64 |-> U64, a3u16 |-> Arr(U16, 3), SW |-> SW, EW |-> EW]

\* encoding with every number in the given byte order
RECURSIVE EncIn(_, _, _)
EncIn(t, v, big) ==
  CASE t.k \in {"int", "nz", "bool", "char"} -> InOrder(v, big)
    [] t.k = "arr" -> Flat([i \in 1..t.n |-> EncIn(t.t, v[i], big)])
    [] t.k = "struct" -> Place([i \in 1..Len(t.fs) |-> EncIn(t.fs[i], v[i], big)], t.offs, t.sz)
    [] t.k = "enum" -> LET x == v[1] + 1 IN
         Place(<<InOrder(t.disc[x], big)>> \o [i \in 1..Len(t.vars[x]) |-> EncIn(t.vars[x][i], v[i + 1], big)], <<0>> \o t.offs[x], t.sz)

\* n * k for a little-endian byte string n and small k, one byte longer
RECURSIVE MulFrom(_, _, _, _)
MulFrom(n, k, i, carry) ==
  IF i > Len(n) THEN <<carry>>
  ELSE LET x == n[i] * k + carry IN <<x % 256>> \o MulFrom(n, k, i + 1, x \div 256)
Mul(n, k) == MulFrom(n, k, 1, 0)
\* fits in w bytes
InWidth(n, w) == \A i \in 1..Len(n) : i > w => n[i] = 0
Cut(n, w) == Take(n \o Zeros(w), w)

\* references: offset and, for unsized targets, length, each of width w
RefBytes(off, len, w, lw, big) == InOrder(Cut(off, w), big) \o InOrder(Cut(len, lw), big)
=============================================================================
