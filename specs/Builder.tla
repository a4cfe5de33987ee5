------------------------------ MODULE Builder ------------------------------
(* P18.  The zero-copy builder as a state machine over its history of       *)
(* stores.  A byte of -1 is one the library leaves unspecified (an          *)
(* uninitialised slot before it is written).                                *)
EXTENDS ZcTypes

\* a configuration: big - references are stored big-endian; osz - bytes of an offset;
\* cap - size of a fixed buffer or -1 for a growable one; al - initial alignment
OMax(c) == IF c.osz = 1 THEN 255 ELSE IF c.osz = 2 THEN 65535 ELSE 2147483647
Start(c) == [b |-> <<>>, req |-> c.al, refs |-> <<>>]

PadTo(s, al) == [s EXCEPT !.b = @ \o Zeros(AlignUp(Len(@), al) - Len(@)), !.req = Max2(@, al)]
Put(s, al, bs) == LET p == PadTo(s, al) IN [p EXCEPT !.b = @ \o bs]
Overwrite(b, off, bs) == [p \in 1..Len(b) |-> IF p > off /\ p <= off + Len(bs) THEN bs[p - off] ELSE b[p]]

Num(c, n) == InOrder(LE(n, c.osz), c.big)
\* the result of one operation: the new state, the offset and length of the
\* reference returned (-1: none), the capacity a fixed buffer certainly needs and
\* the one that is certainly enough, whether the operation applies
Res(s, off, n, need, ap) == [s |-> s, off |-> off, n |-> n, need |-> need, ap |-> ap]
Push(s, k, t, off, n, v) == [s EXCEPT !.refs = Append(@, [k |-> k, t |-> t, off |-> off, n |-> n, v |-> v])]
NoRes(s) == Res(s, -1, -1, 0, FALSE)

Stored(s, al, bs, k, t, n, v) ==
  LET p == Put(s, al, bs)
      off == Len(p.b) - Len(bs)
  IN Res(Push(p, k, t, off, n, v), off, n, Len(p.b), TRUE)

Apply(c, s, o) ==
  CASE o.op = "store" -> Stored(s, T[o.t].al, Enc(T[o.t], o.v), "sized", o.t, 0, o.v)
    [] o.op = "slice" -> Stored(s, T[o.t].al, Flat([i \in 1..Len(o.v) |-> Enc(T[o.t], o.v[i])]), "slice", o.t, Len(o.v), o.v)
    [] o.op = "str" -> Stored(s, 1, o.v, "str", "u8", Len(o.v), o.v)
    [] o.op = "uninit" -> Stored(s, T[o.t].al, Rep(-1, T[o.t].sz), "uninit", o.t, 0, <<>>)
    [] o.op = "write" ->
         IF o.i > Len(s.refs) \/ s.refs[Min2(o.i, Len(s.refs))].k # "uninit" THEN NoRes(s)
         ELSE LET x == s.refs[o.i] IN
              Res([s EXCEPT !.b = Overwrite(@, x.off, Enc(T[x.t], o.v)), !.refs[o.i].k = "sized", !.refs[o.i].v = o.v], -1, -1, 0, TRUE)
    [] o.op = "ref" ->
         IF o.i > Len(s.refs) \/ s.refs[Min2(o.i, Len(s.refs))].k \notin {"sized", "slice", "str"} THEN NoRes(s)
         ELSE LET x == s.refs[o.i] IN
              IF x.k = "sized" THEN Stored(s, c.osz, Num(c, x.off), "ref", "u32", 0, <<x.off>>)
              ELSE Stored(s, c.osz, Num(c, x.off) \o Num(c, x.n), "sref", "u32", 0, <<x.off, x.n>>)
    [] o.op = "next" -> LET p == PadTo(s, T[o.t].al) IN Res(p, Len(p.b), 0, Len(p.b), TRUE)
    [] o.op = "reqalign" -> LET p == PadTo(s, T[o.t].al) IN Res(p, -1, -1, Len(p.b), TRUE)
    [] o.op = "extend" -> LET p == [s EXCEPT !.b = @ \o o.v] IN Res(p, -1, -1, Len(p.b), TRUE)
    [] o.op = "reserve" -> Res(s, -1, -1, Len(s.b) + o.n, TRUE)
    [] o.op = "clear" -> Res([s EXCEPT !.b = <<>>, !.refs = <<>>], -1, -1, 0, TRUE)
    [] o.op = "swap" ->
         IF o.i > Len(s.refs) \/ o.j > Len(s.refs) THEN NoRes(s)
         ELSE LET x == s.refs[o.i]
                  y == s.refs[o.j]
                  n == T[x.t].sz
              IN IF x.k # "sized" \/ y.k # "sized" \/ x.t # y.t THEN NoRes(s)
                 ELSE Res([s EXCEPT !.b = Overwrite(Overwrite(@, x.off, At(@, y.off, n)), y.off, At(@, x.off, n)),
                                    !.refs[o.i].v = y.v, !.refs[o.j].v = IF o.i = o.j THEN y.v ELSE x.v], -1, -1, 0, TRUE)
    [] o.op \in {"alignip", "clone"} -> Res(s, -1, -1, 0, TRUE)

\* capacity beyond which a fixed buffer has no reason to refuse
Enough(s, o, x) == Max2(x.s.req, x.need) + (IF o.op \in {"next", "reqalign"} THEN T[o.t].sz ELSE 0)
Fits(c, s, o, x) == x.off <= OMax(c) /\ x.n <= OMax(c)

Al(x, c) == CASE x.k \in {"sized", "slice", "uninit"} -> T[x.t].al [] x.k = "str" -> 1 [] OTHER -> c.osz
Size(x, c) == CASE x.k \in {"sized", "uninit"} -> T[x.t].sz [] x.k = "slice" -> T[x.t].sz * x.n [] x.k = "str" -> x.n
               [] x.k = "ref" -> c.osz [] OTHER -> 2 * c.osz
=============================================================================
