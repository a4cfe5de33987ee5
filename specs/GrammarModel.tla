---------------------------- MODULE GrammarModel ----------------------------
(* Every byte string up to a length, over the bytes at which the formats      *)
(* change their mind: what is read ends where it ends whatever follows, is    *)
(* read the same from exactly its bytes and not from fewer of them, and what  *)
(* can be read of unknown type can be skipped to the same place.             *)
EXTENDS Codec

CONSTANTS Longest, Bytes0, Types
VARIABLES c, ty, b
Some == {"u8", "u16", "i32", "u128", "bool", "char", "unit", "str", "nz16", "o_u8", "v_u8", "v_bool", "v_unit", "o_unit", "m_u8_v", "a3_u16", "t1", "t2", "rfull", "usize", "f32", "res", "cstr", "V1", "E1"}
Known == Some \cap DOMAIN J.types
Confs == {<<"storage", "Binary", "d">>, <<"storage", "Binary", "fix">>, <<"wire", "Binary", "d">>, <<"wire", "Binary", "fixbig">>, <<"desc", "Binary", "d">>}
C == Codec(c[1], c[2], c[3])
T == TypeOf(ty)
Init == c \in Confs /\ ty \in Types /\ b = <<>>
Next == Len(b) < Longest /\ \E x \in Bytes0 : b' = b \o <<x>> /\ UNCHANGED <<c, ty>>

R(s) == Dec(C, T, FALSE, s, 1, Len(s))
Within == LET r == R(b) IN r # <<>> => r[2] \in 1..(Len(b) + 1)
\* b is a value and one byte: the byte does not matter, and without it there is the same value
Local == Len(b) > 0 => LET r == R(b)
                           n == r[2] - 1
                       IN r # <<>> =>
                            /\ n < Len(b) => R(Take(b, n)) = r
                            /\ n = Len(b) => \A x \in {0, 255} : R(b \o <<x>>) = r
\* no value starts with another
Prefix == LET r == R(b) IN (r # <<>> /\ r[2] = Len(b) + 1) => \A n \in 0..(Len(b) - 1) : R(Take(b, n)) = <<>>
Skips == c[1] = "desc" => LET r == DescAny(b, 1, Len(b)) IN r # <<>> => Skip(C, 1, b, 1, Len(b)) = r[2]
ReadSkips == C.f # "storage" => LET r == R(b) IN r # <<>> => Skip(C, 1, b, 1, Len(b)) = r[2]
=============================================================================
