"""The universe of types used by the format checks: written once here as
declarations, and turned into (a) specs/types.json for the specification, which
gives them their meaning, and (b) harness/fmt/src/gen.rs, the same declarations
as Rust source.  Also generates random values (trees)."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---------------------------------------------------------------- type expressions
def U(w): return {"k": "u", "w": w}
def I(w): return {"k": "i", "w": w}
def F(w): return {"k": "f", "w": w}
US = {"k": "us", "w": 8}; IS = {"k": "is", "w": 8}
BOOL = {"k": "bool"}; CHAR = {"k": "char"}; UNIT = {"k": "unit"}; STR = {"k": "str"}; CSTR = {"k": "cstr"}; PH = {"k": "unit", "rs": "PhantomData<u32>"}
IP4 = {"k": "ip4"}; IP6 = {"k": "ip6"}; IP = {"k": "ip"}; SOCK4 = {"k": "sock4"}; SOCK6 = {"k": "sock6"}; SOCK = {"k": "sock"}; RBYTES = {"k": "rbytes"}; PATH = {"k": "path"}; RFULL = {"k": "rfull"}
def Nz(t): return {"k": "nz", "t": t}
def Opt(t): return {"k": "opt", "t": t}
def Seq(t, rs="Vec"): return {"k": "seq", "t": t, "rs": rs}
def Set(t): return {"k": "set", "t": t}
def Map(k, v): return {"k": "map", "kt": k, "vt": v}
def Tup(*ts): return {"k": "tup", "ts": list(ts)}
def Arr(t, n): return {"k": "arr", "t": t, "n": n}
def Res(t, e): return {"k": "res", "t": t, "e": e}
def Rng(rs, t): return {"k": "rng", "rs": rs, "ts": [t, t] if rs in ("Range", "RangeInclusive") else [t]}
def W(rs, t): return {"k": "w", "rs": rs, "t": t}
def D(n): return {"k": "d", "n": n}
u8, u16, u32, u64, u128 = U(1), U(2), U(4), U(8), U(16)
i8, i16, i32, i64, i128 = I(1), I(2), I(4), I(8), I(16)
f32, f64 = F(4), F(8)

def rust(t):
    k = t["k"]
    if k in ("str", "cstr", "path") and "rs" in t: return t["rs"]
    if k == "seq" and "[" in t["rs"]: return t["rs"]
    if k == "seq" and t["rs"] == "BoxSlice": return f"Box<[{rust(t['t'])}]>"
    if k == "map" and "rs" in t: return f"{t['rs']}<{rust(t['kt'])}, {rust(t['vt'])}>"
    if k == "set" and "rs" in t: return f"{t['rs']}<{rust(t['t'])}>"
    if k in ("u", "i", "f"): return k + str(t["w"] * 8)
    if "rs" in t and k == "unit": return t["rs"]
    if k in PRIMS: return PRIMS[k]
    if k == "nz": return "NonZero" + rust(t["t"])[0].upper() + rust(t["t"])[1:]
    if k == "opt": return f"Option<{rust(t['t'])}>"
    if k == "seq": return f"{t['rs']}<{rust(t['t'])}>"
    if k == "set": return f"BTreeSet<{rust(t['t'])}>"
    if k == "map": return f"BTreeMap<{rust(t['kt'])}, {rust(t['vt'])}>"
    if k == "tup": return "(" + "".join(rust(x) + "," for x in t["ts"]) + ")"
    if k == "arr": return f"[{rust(t['t'])}; {t['n']}]"
    if k == "res": return f"Result<{rust(t['t'])}, {rust(t['e'])}>"
    if k == "rng": return f"{t['rs']}<{rust(t['ts'][0])}>"
    if k == "w": return f"{t['rs']}<{rust(t['t'])}>" if t["rs"] != "Cow" else "Cow<'static, str>"
    if k == "d": return t["n"]
    raise Exception(k)
PRIMS = {"us": "usize", "is": "isize", "bool": "bool", "char": "char", "unit": "()", "str": "String", "cstr": "CString", "ip4": "Ipv4Addr", "ip6": "Ipv6Addr", "ip": "IpAddr", "path": "PathBuf", "rfull": "RangeFull", "sock4": "SocketAddrV4", "sock6": "SocketAddrV6", "sock": "SocketAddr", "rbytes": "&'static [u8]"}

# ---------------------------------------------------------------- attributes: (mode, key, value)
def codes(s): return list(s.encode())
def le8(n): return list(n.to_bytes(8, "little"))
def S(s): return {"k": "str", "b": codes(s)}
def N(n): return {"k": "us", "b": le8(n)}
def A(a, v=None, m="any"): return {"m": m, "a": a, "v": v if v is not None else []}
def only(o, x): return {**x, "o": o}  # an attribute for encoding ("E") or decoding ("D") only
def H(a, v=None): return A(a, v, "Third")  # the mode of the harness, which is neither Binary nor Text
def B(a, v=None): return A(a, v, "Binary")
def T(a, v=None): return A(a, v, "Text")

def lit(v):
    return json.dumps(bytes(v["b"]).decode(), ensure_ascii=False) if v["k"] == "str" else str(int.from_bytes(bytes(v["b"]), "little"))

def rattr(a):
    if a["a"] == "bitwise": return "#[repr(C)]"
    k, v, m = a["a"], a["v"], a["m"]
    s = {"name": lambda: f"name = {lit(v)}", "pattern": lambda: "pattern = (" + " | ".join(lit(x) for x in v) + ")" if len(v) > 1 else f"pattern = {lit(v[0])}",
         "name_all": lambda: f'name_all = "{v}"', "name_type": lambda: f"name(type = {v})", "tag": lambda: f"tag = {lit(v)}", "content": lambda: f"content = {lit(v)}",
         "default_path": lambda: f"default = {v['fn']}", "skipif": lambda: f"skip_encoding_if = {v['fn']}", "with": lambda: f"with = crate::custom::{v}"}.get(k, lambda: k)()
    m = "mode = crate::prelude::Third" if m == "Third" else m
    o = {"E": "encode_only", "D": "decode_only"}.get(a.get("o"))
    return "#[musli(" + ", ".join(x for x in (m if m != "any" else None, o, s) if x) + ")]"

DECLS = {}
def fields(fs):
    return [{"id": codes(f[0]) if isinstance(f[0], str) else [], "idx": le8(i), "t": f[1], "attrs": list(f[2:]), "rid": f[0] if isinstance(f[0], str) else str(i)} for i, f in enumerate(fs)]
def struct(n, style, attrs, *fs):
    DECLS[n] = {"k": "struct", "style": style, "attrs": attrs, "fields": fields(fs)}
    return D(n)
def var(n, style, attrs, *fs): return {"id": codes(n), "rid": n, "style": style, "attrs": attrs, "fields": fields(fs)}
def enum(n, attrs, *vs):
    for i, v in enumerate(vs): v["idx"] = le8(i)
    DECLS[n] = {"k": "enum", "attrs": attrs, "vars": list(vs)}
    return D(n)

# ---------------------------------------------------------------- declarations
struct("P1", "named", [], ("a", u8), ("b", STR), ("c", Opt(u32)))
struct("P2", "tuple", [], (0, u16), (1, i32))
struct("P3", "unit", [])
struct("P4", "named", [])
struct("P5", "named", [A("packed")], ("a", u8), ("b", u32), ("c", i64), ("d", f32))
struct("P6", "named", [A("packed")], ("a", u8), ("b", STR), ("c", Opt(u16)))
struct("P7", "tuple", [A("packed")], (0, u32), (1, i32))
struct("P8", "named", [A("packed"), A("bitwise")], ("a", Arr(u16, 2)), ("b", u16))
struct("P9", "tuple", [A("transparent")], (0, STR))
struct("P10", "named", [A("transparent")], ("x", u32))
struct("P11", "named", [A("packed")], ("a", BOOL), ("b", CHAR), ("c", Tup(u8, u16)))
struct("P12", "named", [B("packed")], ("one", u32), ("two", BOOL))
struct("P13", "tuple", [B("transparent")], (0, u16))
struct("P14", "tuple", [A("transparent")], (0, D("P1")))
struct("N1", "named", [], ("a", u8, B("name", N(5)), T("name", S("x"))), ("b", u8, B("name", N(300)), T("name", S('q"\n'))), ("c", BOOL, B("name", N(1)), T("name", S("é"))))
for i, pol in enumerate(["index", "name", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]):
    struct(f"NA{i}", "named", [A("name_all", pol)], ("foo_bar", u8), ("b", BOOL), ("http_response_code", Opt(u8)), ("x2_y", u16, A("name", N(9) if pol == "index" else S("kept_As"))))
    enum(f"NE{i}", [A("name_all", pol)], var("FooBar", "unit", []), var("B", "tuple", [], (0, u8)), var("HttpResponseCode", "named", [A("name_all", pol)], ("in_ner", u8)), var("Kept", "unit", [A("name", N(77) if pol == "index" else S("stay"))]))
struct("N9", "named", [B("name_all", "snake_case"), T("name_all", "SCREAMING_SNAKE_CASE")], ("foo_bar", u8), ("baz", STR))
struct("N10", "named", [B("name_type", "str"), T("name_type", "usize")], ("a", u8, B("name", S("alpha")), T("name", N(3))), ("b", u8, B("name", S("")), T("name", N(1000))))
struct("S1", "named", [], ("a", u8), ("b", u32, A("skip")), ("c", Opt(u16), A("default")), ("d", STR, A("default_path", {"fn": "crate::custom::dflt", "v": codes("dflt")})), ("e", Opt(u8), A("default"), A("skipif", {"fn": "Option::is_none", "v": []})), ("f", u16, A("default"), A("skipif", {"fn": "crate::custom::is_seven", "v": [7, 0]})))
struct("S2", "named", [], ("a", u8, T("skip")), ("b", u8, B("skip")), ("c", u16, B("default"), T("default_path", {"fn": "crate::custom::nine", "v": [9, 0]})))
struct("S3", "named", [], ("a", Seq(u8), A("bytes")), ("b", Arr(u8, 4), A("bytes")), ("c", Tup(u8, u32), A("packed")), ("d", Arr(u16, 2), A("packed")), ("e", Seq(u8, "VecDeque"), A("bytes")))
# the third mode
struct("H1", "named", [H("name_all", "camelCase")], ("foo_bar", u8, T("name", S("x"))), ("b", u16, H("name", S("bee"))), ("c", Opt(u8), H("default"), H("skipif", {"fn": "Option::is_none", "v": []})))
struct("H2", "tuple", [H("packed")], (0, u8), (1, STR))
struct("H3", "named", [H("name_type", "usize")], ("a", u8), ("b", u16), ("t", Seq(D("H2"))))
struct("H4", "named", [], ("a", u8, T("name", S("aa"))), ("b", u16, H("skip")), ("c", Seq(u8), H("bytes")))
struct("H5", "named", [A("name_all", "name"), only("D", H("name_all", "index")), only("E", H("transparent"))], ("x", u16))
enum("H6", [H("tag", S("t")), H("name_all", "name")], var("A", "named", [H("name_all", "name")], ("x", u8), ("h", D("H2"))), var("B", "named", [H("name", S("b")), H("name_all", "kebab-case")], ("y", Opt(u8))))
enum("H7", [], var("A", "unit", [H("name", N(9))]), var("B", "tuple", [], (0, u8)), var("C", "tuple", [H("transparent")], (0, D("H1"))), var("D", "unit", [H("default")]))
THIRD = [f"H{i}" for i in range(1, 8)]
struct("S4", "named", [], ("a", u32, A("with", "wide")), ("b", STR, A("with", "rev")))
struct("S5", "named", [], ("a", u8, A("skip"), A("default_path", {"fn": "crate::custom::eleven", "v": [11]})), ("b", u8))
struct("S6", "named", [], ("m", Map(STR, u32), A("trace")), ("r", D("P1")))
struct("S9", "named", [], ("c", Seq(u8, "BoxSlice"), A("bytes")),
       ("e", Tup(*[(u8, u16, BOOL, u32, STR, i8)[i % 6] for i in range(12)]), A("packed")), ("f", Tup(*[(u16, u8, i64)[i % 3] for i in range(7)]), A("packed")))
struct("G1", "named", [], *[(f"f{i}", u8) for i in range(70)])
enum("G2", [], *[var(f"V{i}", "unit" if i % 3 else "tuple", [], *([] if i % 3 else [(0, u16)])) for i in range(140)])
struct("S7", "named", [A("packed")], ("b", u16), ("c", Seq(u8), A("bytes")))
struct("S8", "named", [], ("a", u16, B("default"), B("skipif", {"fn": "crate::custom::is_seven", "v": [7, 0]})), ("b", u8))
struct("Tree", "named", [], ("v", u8), ("kids", Seq(D("Tree"))))
enum("E1", [], var("Unit", "unit", []), var("Tup", "tuple", [], (0, u32), (1, STR)), var("Named", "named", [], ("x", u8), ("y", Opt(D("P1")))), var("Empty", "named", []), var("One", "tuple", [], (0, u8)))
enum("E2", [T("name_all", "kebab-case")], var("FirstVariant", "unit", [B("name", N(300))]), var("SecondOne", "tuple", [T("name", S("2nd"))], (0, i32)), var("Third", "named", [], ("some_field", u8, T("name", S("sf")))))
enum("E3", [T("tag", S("type")), B("name_type", "usize"), B("tag", N(10))], var("A", "unit", []), var("Num", "named", [], ("x", u32), ("y", Opt(u8))), var("Str", "named", [], ("s", STR), ("l", Seq(u16))), var("In", "named", [], ("p", D("P1"))))
enum("E4", [T("tag", S("t")), T("content", S("c")), B("name_type", "usize"), B("tag", N(10)), B("content", N(11))], var("A", "unit", []), var("Num", "tuple", [], (0, u32)), var("Str", "named", [], ("s", STR), ("o", Opt(i16))))
enum("E5", [A("untagged")], var("A", "named", [], ("a", u8), ("b", STR)), var("B", "named", [], ("a", u8)), var("C", "named", [], ("c", BOOL, B("name", N(2)))))
enum("E6", [], var("Known", "tuple", [], (0, u8)), var("Other", "unit", [A("default")]))
enum("E7", [], var("N", "tuple", [A("transparent")], (0, u32)), var("S", "tuple", [A("transparent")], (0, STR)), var("P", "tuple", [A("packed")], (0, u16), (1, u8)), var("L", "tuple", [A("transparent")], (0, Seq(u8))))
enum("E8", [B("name_type", "str"), T("name_type", "usize")], var("A", "unit", [B("name", S("alpha")), T("name", N(7))]), var("B", "tuple", [B("name", S("beta")), T("name", N(300))], (0, u8)))
enum("E9", [], var("A", "tuple", [A("pattern", [N(0), N(4), N(5)], "Binary"), A("pattern", [S("A"), S("a")], "Text")], (0, u8)), var("B", "unit", [A("pattern", [N(1), N(9)], "Binary"), A("pattern", [S("B"), S("b")], "Text")]))
enum("E10", [], var("A", "unit", []), var("B", "unit", [B("name", N(300)), T("name", S("bee"))]), var("C", "unit", []))
enum("E11", [], var("A", "unit", []), var("Z", "unit", [A("default")]))
struct("U1", "named", [], ("l", Seq(D("E5"))), ("e", D("E5")), ("z", u8))
# identifiers at the edges of what the naming policies take apart
for i, pol in enumerate(["index", "name", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]):
    struct(f"NB{i}", "named", [A("name_all", pol)], ("_lead", u8), ("trail_", u8), ("dou__ble", BOOL), ("a_1b", u8), ("x1y2", u8), ("camelCase", u8), ("URL", u8), ("HTTPServer", u8), ("_0", u8), ("z", u8))
    enum(f"NC{i}", [A("name_all", pol)], var("HTTPServer", "unit", []), var("X1Y2", "tuple", [], (0, u8)), var("Foo_Bar", "unit", []), var("lower_case", "unit", []), var("ABC", "named", [], ("q", u8)), var("_Lead", "unit", []), var("V2Ray", "unit", []))
# what a container's kind of name says about the names which are not given
struct("N11", "named", [B("name_type", "str"), T("name_type", "usize")], ("foo_bar", u8), ("b", STR))
enum("N12", [B("name_type", "str"), T("name_type", "usize")], var("FooBar", "unit", []), var("Beta", "tuple", [], (0, u8)))
struct("N13", "tuple", [], (0, u8, T("name", N(7))), (1, STR))
# attributes for one side of one mode, of either, and of every mode
struct("O1", "named", [], ("sur", u8), ("last", STR, only("D", T("name", S("l"))), only("E", B("name", N(5)))), ("opt", Opt(u8), A("default")))
struct("O2", "named", [], ("a", u8, only("E", A("name", N(3), "Binary")), B("name", N(4)), A("name", S("aa"), "Text"), only("D", A("name", S("bb"), "Text"))), ("b", u16, A("default"), only("E", B("name", N(0))), only("D", B("name", N(3)))))
struct("O3", "named", [only("E", A("name_all", "PascalCase", "Text")), only("D", A("name_all", "kebab-case", "Text"))], ("foo_bar", u8), ("baz", BOOL, A("default")))
struct("O4", "named", [], ("a", u8, only("E", A("skip")), A("default")), ("b", u16, only("D", A("skip"))), ("c", STR, only("D", T("default"))), ("d", u8, only("E", B("skipif", {"fn": "crate::custom::is_eleven", "v": [11]})), only("D", B("default_path", {"fn": "crate::custom::eleven", "v": [11]}))))
struct("O5", "named", [only("E", A("packed"))], ("a", u8), ("b", STR))
struct("O6", "named", [only("D", B("packed")), only("E", T("packed"))], ("a", u8), ("b", u32))
struct("O7", "tuple", [only("E", A("transparent"))], (0, u32))
struct("O8", "tuple", [A("packed"), only("D", B("transparent"))], (0, u32))
struct("O9", "named", [], ("a", u32, only("E", A("with", "wide"))), ("b", STR, only("D", T("with", "rev"))), ("c", Seq(u8), only("E", B("bytes"))))
enum("O10", [], var("A", "unit", [only("E", T("name", S("a")))]), var("B", "tuple", [only("D", B("name", N(2)))], (0, u8)), var("C", "named", [only("D", A("pattern", [S("A"), S("a")], "Text")), only("D", A("pattern", [N(1), N(5)], "Binary"))], ("x", u8)))
enum("O11", [only("E", T("untagged")), only("E", B("tag", N(10)))], var("A", "named", [], ("a", u8)), var("B", "named", [], ("b", u8)))
enum("O12", [only("D", T("tag", S("type"))), only("E", T("tag", S("t"))), only("E", T("content", S("c")))], var("A", "named", [], ("a", u8, A("default"))), var("B", "named", [], ("b", u8)))
ASYM = [f"O{i}" for i in range(1, 13)] + ["H5"]
# fields which are left out, of variants and of structures without names
enum("K1", [], var("A", "named", [], ("a", u8, A("skip")), ("b", u16), ("c", Opt(u8), A("default"), A("skipif", {"fn": "Option::is_none", "v": []}))),
     var("B", "tuple", [], (0, u8, A("default")), (1, u32, A("skip"), A("default_path", {"fn": "crate::custom::big", "v": [0, 0, 1, 0]})), (2, BOOL)),
     var("C", "tuple", [A("transparent")], (0, u8, A("skip")), (1, STR)), var("D", "named", [A("packed")], ("a", u8), ("z", u16, A("skip")), ("b", STR)), var("E", "tuple", [T("packed")], (0, u8), (1, STR, B("default"))))
enum("K2", [T("tag", S("k")), B("tag", N(10)), B("name_type", "usize")], var("A", "named", [], ("a", u8, A("default")), ("b", u16, A("skip")), ("c", BOOL)), var("B", "named", [T("name_all", "SCREAMING_SNAKE_CASE")], ("x_y", u8, A("default"), A("skipif", {"fn": "crate::custom::is_eleven", "v": [11]}))), var("C", "unit", []))
struct("K3", "named", [A("transparent")], ("a", u8, A("skip"), A("default_path", {"fn": "crate::custom::eleven", "v": [11]})), ("b", Seq(u16)), ("c", BOOL, A("skip")))
struct("K4", "named", [A("packed")], ("a", u8, A("skip")), ("b", u32), ("c", STR, A("skip")), ("d", u8))
struct("K5", "tuple", [], (0, u8, A("skip")), (1, u16, A("default")), (2, STR))
EDGES = [f"N{a}{i}" for a in "BC" for i in range(8)] + ["N11", "N12", "N13", "K1", "K2", "K3", "K4", "K5"] + ASYM
EDGE_RELATED = [["O1", "O2", "O4"], ["O5", "O6", "P1", "P5"], ["O7", "O8", "I4", "P10"], ["O10", "O11", "O12", "E1"], ["NB2", "NB3", "NB4", "NB6"], ["NC1", "NC2", "NC3", "NC7"], ["K1", "K2"], ["N11", "N9", "O3"]]
# upgrade family: the same logical fields, any subset and order
FIELDS = {"f1": (u32, 1), "f2": (STR, 2), "f3": (Opt(Seq(u16)), 3), "f4": (D("E1"), 4), "f5": (D("P1"), 5), "f6": (Map(STR, Opt(u8)), 6), "f7": (D("S7"), 7), "f8": (Tup(f64, CHAR, BOOL), 8), "f9": (UNIT, 9),
          "f10": (i128, 70), "f11": (Res(u8, STR), 700), "f12": (Seq(D("E7")), 11), "f13": (Arr(u8, 4), 13), "f14": (D("P3"), 14), "f15": (Opt(Opt(u8)), 15), "f16": (Seq(UNIT), 16)}
def upf(*fs):
    out = []
    for f in fs:
        d = f.endswith("?")
        f = f.rstrip("?")
        t, i = FIELDS[f]
        at = [B("name", N(i)), T("name", S(f))]
        if d: at.append(A("default"))
        if f == "f13": at.append(A("bytes"))
        out.append((f, t, *at))
    return out
def up(n, *fs): struct(n, "named", [], *upf(*fs))
up("V1", "f1", "f2")
up("V2", "f2", "f1")
up("V3", "f2?", "f3?", "f1")
up("V4", "f4", "f1", "f5", "f2")
up("V5", "f6", "f7", "f8", "f9", "f1", "f2", "f10")
up("V6", "f11", "f12", "f2", "f13", "f14", "f1", "f15", "f16")
up("V7", "f1?", "f2?", "f3?", "f10?", "f9?")
up("V8", "f1")
up("V9", "f3", "f15", "f1")
up("V10")
up("V11", "f16", "f12", "f8", "f7", "f6", "f5", "f4", "f3", "f2?", "f1")
UPGRADE = [f"V{i}" for i in range(1, 12)]
def nm(i, s): return [B("name", N(i)), T("name", S(s))]
for a, b, at in (("W1", "W2", []), ("W3", "W4", [T("tag", S("t")), B("tag", N(10)), B("name_type", "usize")]), ("W5", "W6", [T("tag", S("t")), T("content", S("c")), B("tag", N(10)), B("content", N(12)), B("name_type", "usize")])):
    enum(a, at, var("A", "named", nm(0, "A"), *upf("f1", "f2")), var("B", "named", nm(1, "B"), *upf("f4", "f12", "f3")), var("C", "named", nm(5, "see"), *upf("f7")))
    enum(b, at, var("C", "named", nm(5, "see")), var("B", "named", nm(1, "B"), *upf("f3", "f10?", "f4")), var("A", "named", nm(0, "A"), *upf("f2", "f9?", "f1")), var("E", "named", nm(9, "E"), *upf("f6")))
enum("W7", [], var("A", "named", nm(0, "A"), *upf("f2")), var("X", "unit", nm(400, "X") + [A("default")]))
struct("Big1", "named", [], ("id", u64), ("name", STR), ("tags", Seq(STR)), ("kind", D("E1")), ("opt", Opt(D("P2"))), ("map", Map(u8, Seq(i16))), ("tup", Tup(BOOL, CHAR, f64)), ("inner", D("S1")), ("pk", D("P6")))

# ---------------------------------------------------------------- the named types
TYPES = {}
for n, t in [("u8", u8), ("u16", u16), ("u32", u32), ("u64", u64), ("u128", u128), ("i8", i8), ("i16", i16), ("i32", i32), ("i64", i64), ("i128", i128), ("usize", US), ("isize", IS), ("f32", f32), ("f64", f64),
             ("bool", BOOL), ("char", CHAR), ("unit", UNIT), ("str", STR), ("cstr", CSTR), ("phantom", PH), ("nz8", Nz(u8)), ("nz16", Nz(u16)), ("nzi32", Nz(i32)), ("nz64", Nz(u64)), ("nz128", Nz(u128)), ("nzus", Nz(US)),
             ("ip4", IP4), ("ip6", IP6), ("ip", IP), ("path", PATH), ("rfull", RFULL),
             ("wu32", W("Wrapping", u32)), ("boxu16", W("Box", u16)), ("rcstr", W("Rc", STR)), ("cow", W("Cow", STR)), ("arcv", W("Arc", Seq(u8))),
             ("o_u8", Opt(u8)), ("o_o_u16", Opt(Opt(u16))), ("o_str", Opt(STR)), ("o_unit", Opt(UNIT)), ("o_v", Opt(Seq(u16))), ("o_p1", Opt(D("P1"))),
             ("v_u8", Seq(u8)), ("v_u16", Seq(u16)), ("v_i32", Seq(i32)), ("v_u128", Seq(u128)), ("v_str", Seq(STR)), ("v_bool", Seq(BOOL)), ("v_char", Seq(CHAR)), ("v_unit", Seq(UNIT)), ("v_v_u16", Seq(Seq(u16))), ("v_o_u32", Seq(Opt(u32))), ("v_f64", Seq(f64)),
             ("v_a_u16", Seq(Arr(u16, 2))), ("v_a_bool", Seq(Arr(BOOL, 2))), ("v_nz", Seq(Nz(u16))), ("v_p5", Seq(D("P5"))), ("v_p6", Seq(D("P6"))), ("v_p7", Seq(D("P7"))), ("v_t", Seq(Tup(u8, u16))), ("v_usize", Seq(US)), ("v_e1", Seq(D("E1"))), ("v_e5", Seq(D("E5"))), ("v_e10", Seq(D("E10"))), ("v_p8", Seq(D("P8"))), ("a2_p8", Arr(D("P8"), 2)), ("v_a_p8", Seq(Arr(D("P8"), 2))),
             ("dq_u16", Seq(u16, "VecDeque")), ("dq_str", Seq(STR, "VecDeque")), ("set_u16", Set(u16)), ("set_str", Set(STR)),
             ("m_str_u32", Map(STR, u32)), ("m_u8_v", Map(u8, Seq(u8))), ("m_i64_str", Map(i64, STR)), ("m_str_m", Map(STR, Map(STR, BOOL))), ("m_u128_u8", Map(u128, u8)), ("m_i8_i8", Map(i8, i8)), ("m_us_o", Map(US, Opt(u8))),
             ("t1", Tup(u8)), ("t2", Tup(u8, STR)), ("t3", Tup(u16, i32, BOOL)), ("t4", Tup(UNIT, CHAR, f32, Tup(u8, u8))),
             ("a0", Arr(u8, 0)), ("a4_u8", Arr(u8, 4)), ("a3_u16", Arr(u16, 3)), ("a3_a2", Arr(Arr(u16, 2), 3)), ("a2_a2_bool", Arr(Arr(BOOL, 2), 2)), ("a2_char", Arr(CHAR, 2)), ("a2_str", Arr(STR, 2)), ("a2_nz", Arr(Nz(u16), 2)), ("a2_unit", Arr(UNIT, 2)), ("a2_usize", Arr(US, 2)),
             ("res", Res(u8, STR)), ("res_unit", Res(UNIT, D("P1"))), ("rng", Rng("Range", u32)), ("rngi", Rng("RangeInclusive", i8)), ("rngf", Rng("RangeFrom", u16)), ("rngt", Rng("RangeTo", u16)), ("rngti", Rng("RangeToInclusive", u64))]:
    TYPES[n] = t
HSET = {"k": "set", "t": u16, "rs": "HashSet", "max1": True}
TYPES.update({"sock4": SOCK4, "sock6": SOCK6, "sock": SOCK, "v_sock": Seq(SOCK), "rbytes": RBYTES, "refstr": {"k": "str", "rs": "&'static str"}, "boxstr": {"k": "str", "rs": "Box<str>"}, "boxsl_u16": Seq(u16, "BoxSlice"), "boxsl_str": Seq(STR, "BoxSlice"),
              "hm": {**Map(u16, STR), "rs": "HashMap", "max1": True}, "hset": HSET, "v_hset": Seq(HSET), "heap": {"k": "set", "t": u16, "rs": "BinaryHeap", "max1": True, "multi": True},
              "v_refstr": Seq({"k": "str", "rs": "&'static str"}), "big_t": Tup(u8, u16, u32, STR, BOOL, Opt(u8), Seq(u8), i8), "arcstr": W("Arc", STR), "m_str_ref": Map({"k": "str", "rs": "&'static str"}, u8)})
TYPES.update({f"t{n}": Tup(*[(u8, u16, BOOL, u32, Opt(u8), STR, i8)[i % 7] for i in range(n)]) for n in (5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16)})
TYPES.update({"osstr": {"k": "path", "rs": "OsString"}, "rcos": {"k": "path", "rs": "Rc<OsStr>"}, "boxos": {"k": "path", "rs": "Box<OsStr>"}, "arcpath": {"k": "path", "rs": "Arc<Path>"}, "boxpath": {"k": "path", "rs": "Box<Path>"},
              "boxcstr": {"k": "cstr", "rs": "Box<CStr>"}, "rccstr": {"k": "cstr", "rs": "Rc<CStr>"}, "cowcstr": {"k": "cstr", "rs": "Cow<'static, CStr>"}, "refcstr": {"k": "cstr", "rs": "&'static CStr"}})
for n in DECLS: TYPES[n] = D(n)
def fam(p, t, ns):
    for n in ns: TYPES[p + n] = t(D(n))
    return [p + n for n in ns]
SHAPES = [UPGRADE, ["W1", "W2", "W7"], ["W3", "W4"], ["W5", "W6"], fam("v", Seq, ["V1", "V3", "V4", "V6", "V7", "V8", "V10"]), fam("m", lambda t: Map(u8, t), ["V1", "V5", "V8"]), fam("o", Opt, ["V1", "V6", "V8"]),
          fam("t", lambda t: Tup(t, STR, D("E1"), Map(u16, STR)), ["V1", "V8"]) + fam("s", lambda t: Tup(t, STR), ["V3", "V8"]), fam("v", Seq, ["W1", "W2"]), ["t1", "t2"]]
# types also used under every other combination of options
OPTTYPES = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize", "f32", "f64", "bool", "char", "unit", "str", "nz16", "o_u8", "v_u8", "v_u16", "v_i32", "v_str", "v_bool", "v_char", "v_unit", "v_a_u16", "v_a_bool", "v_nz", "v_p5", "v_p7", "v_usize", "v_t",
            "dq_u16", "a3_u16", "a3_a2", "a2_a2_bool", "a2_char", "a2_nz", "a2_unit", "a2_usize", "t3", "t4", "m_u8_v", "res", "P1", "P2", "P5", "P6", "P7", "P8", "P11", "S3", "E1", "E7", "E10", "v_p8", "v_a_p8", "Big1"]

# types between which integers, or whole structures, are convertible
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize"]
RELATED = {x: INTS for x in INTS}
for g in (["v_u8", "v_u16", "v_i32", "v_u128", "v_usize", "dq_u16", "set_u16", "a3_u16", "v_nz", "hset", "heap", "boxsl_u16", "rbytes"], ["o_u8", "o_o_u16", "o_unit"], ["m_u8_v", "m_i64_str", "m_u128_u8", "m_i8_i8", "m_us_o", "hm"], ["f32", "f64", "u32"], ["t1", "t2", "t3", "t4", "rng", "rngi", "rngf"],
          *SHAPES[:-1], ["E1", "E2", "E6", "E7", "E9", "res"], ["E10", "E11", "NE0", "u16"]):
    for x in g: RELATED[x] = g

# containers of integers, which are read as each other
def intlike(p, t, ws):
    for w in ws: TYPES[p + w] = t(TYPES[w])
    return [p + w for w in ws]
struct("I1", "named", [], ("a", u8), ("b", i64)); struct("I2", "named", [], ("a", i32), ("b", u64)); struct("I3", "named", [], ("a", u128), ("b", i8)); struct("I4", "tuple", [A("transparent")], (0, i16))
TYPES.update({x: D(x) for x in ("I1", "I2", "I3", "I4")})
INTLIKE = [intlike("x", lambda t: Seq(Opt(t)), ["u8", "i16", "u64", "i128"]), intlike("y", lambda t: Map(t, t), ["u16", "i8", "i64"]), intlike("z", lambda t: Res(t, t), ["u32", "i8", "i64"]), ["I1", "I2", "I3"], ["I4", "i64", "u8"], ["v_u8", "v_u16", "v_i32", "v_u128", "v_usize"], ["nz8", "nz16", "nzi32", "nz64", "nz128"]]

# ---------------------------------------------------------------- values
def key(v): return v
def gen(rng, t, d=0):
    k = t["k"]
    if k in ("u", "us", "i", "is"):
        w = t["w"]
        n = rng.choice([lambda: rng.randrange(256 ** w), lambda: rng.randrange(2 ** rng.randrange(1, 8 * w + 1)), lambda: rng.choice([0, 1, 62, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 2 ** (8 * w - 1) - 1, 2 ** (8 * w - 1), 256 ** w - 1]) % 256 ** w,
                        lambda: (-rng.choice([1, 2, 32, 33, 63, 64, 65, 127, 128])) % 256 ** w, lambda: (2 ** (7 * rng.randrange(1, 20)) + rng.randrange(-2, 2)) % 256 ** w])()
        return list(n.to_bytes(w, "little"))
    if k == "f":
        import struct as st
        w = t["w"]
        x = rng.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 123456.789, 3.4028234e38, 1e-30, 1.17549435e-38, 5e-45, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1)])
        if w == 8 and rng.random() < .4:
            x = rng.choice([1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e300, -1e-300, 0.30000000000000004, rng.random() * 10 ** rng.randrange(-300, 300)])
        return list(st.pack("<f" if w == 4 else "<d", x))
    if k == "bool": return rng.randrange(2)
    if k == "char": return rng.choice([lambda: rng.randrange(128), lambda: rng.choice([0, 62, 63, 34, 92, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff])])()
    if k in ("unit", "rfull"): return []
    if k in ("str", "cstr", "path"): return gstr(rng, k, d)
    if k == "ip4": return [rng.randrange(256) for _ in range(4)]
    if k == "ip6": return [rng.choice([0, 0, rng.randrange(256)]) for _ in range(16)]
    if k == "ip":
        n = rng.randrange(2)
        return [n, gen(rng, [IP4, IP6][n])]
    if k == "rbytes": return [rng.randrange(256) for _ in range(count(rng, d))]
    if k == "sock4": return [gen(rng, IP4), gen(rng, u16)]
    if k == "sock6": return [gen(rng, IP6), gen(rng, u16), gen(rng, u32) if rng.random() < .5 else [0] * 4, gen(rng, u32) if rng.random() < .5 else [0] * 4]
    if k == "sock":
        n = rng.randrange(2)
        return [n, gen(rng, [SOCK4, SOCK6][n])]
    if k == "nz":
        while True:
            v = gen(rng, t["t"], d)
            if any(v): return v
    if k == "opt": return [] if rng.random() < .4 else [gen(rng, t["t"], d + 1)]
    if k == "seq": return [gen(rng, t["t"], d + 1) for _ in range(count(rng, d))]
    if "max1" in t: n = rng.randrange(2)
    elif k in ("set", "map"): n = count(rng, d)
    if k == "set": return uniq([gen(rng, t["t"], d + 1) for _ in range(n)], t["t"])
    if k == "map":
        ks = uniq([gen(rng, t["kt"], d + 1) for _ in range(n)], t["kt"])
        return [[x, gen(rng, t["vt"], d + 1)] for x in ks]
    if k in ("tup", "rng"): return [gen(rng, x, d + 1) for x in t["ts"]]
    if k == "arr": return [gen(rng, t["t"], d + 1) for _ in range(t["n"])]
    if k == "res":
        n = rng.randrange(2)
        return [n, gen(rng, [t["t"], t["e"]][n], d + 1)]
    if k == "w": return gen(rng, t["t"], d)
    if k == "d":
        x = DECLS[t["n"]]
        if x["k"] == "struct": return [gfield(rng, f, d) for f in x["fields"]]
        n = rng.randrange(len(x["vars"]))
        return [n, [gfield(rng, f, d) for f in x["vars"][n]["fields"]]]
    raise Exception(k)
def gfield(rng, f, d):
    for a in f["attrs"]:
        if a["a"] in ("skipif", "default_path") and rng.random() < .4: return a["v"]["v"]
    return gen(rng, f["t"], d + 1)
def count(rng, d):
    if d > 4: return 0
    if rng.random() < (.15 if d == 0 else .01): return rng.choice([30, 31, 32, 62, 63, 64, 70, 130])
    return rng.choice([0, 1, 1, 2, 3, 4])
def gstr(rng, k, d):
    n = rng.choice([0, 1, 2, 3, 5, 8] + ([30, 31, 32, 61, 62, 63, 64, 127, 128] if d == 0 or rng.random() < .04 else []))
    cs = rng.choice(["ab c", "é€𝄞x", '"\\/\n\t\r\x08\x0c\x01\x1f ', "\x7f\u07ff\u0800\uffff\U0010ffff", "x"])
    s = "".join(rng.choice(cs) for _ in range(n))
    if k == "path": s = s.replace("\x00", "")
    if k == "path" and rng.random() < .3: return [rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 5, 70]))]
    return codes(s)
def order(v, t):
    if t["k"] in ("u", "us"): return int.from_bytes(bytes(v), "little")
    if t["k"] in ("i", "is"): return int.from_bytes(bytes(v), "little", signed=True)
    return bytes(v)
def uniq(vs, t):
    out = {}
    for v in vs: out[order(v, t)] = v
    return [out[k] for k in sorted(out)]

# ---------------------------------------------------------------- Rust source
def rs_fields(style, fs, pub):
    if style == "unit": return ""
    body = "".join(" ".join(rattr(a) for a in f["attrs"]) + (" " if f["attrs"] else "") + (f"{pub}{f['rid']}: " if style == "named" else pub) + rust(f["t"]) + ", " for f in fs)
    return (" { " + body + "}") if style == "named" else "(" + body + ")"
def rs_source():
    o = ["// Generated by checks/universe.py: do not edit.", "pub use crate::prelude::*;", ""]
    for n, x in DECLS.items():
        o.append("#[derive(Encode, Decode, Debug, Clone, PartialEq)]")
        o += [rattr(a) for a in x["attrs"]]
        if x["k"] == "struct":
            b = rs_fields(x["style"], x["fields"], "pub ")
            o.append(f"pub struct {n}{b}" + ("" if x["style"] == "named" else ";"))
            mk = lambda i, f: (f"{f['rid']}: " if x["style"] == "named" else "") + f"DV::of(&v[{i}]), "
            inner = "".join(mk(i, f) for i, f in enumerate(x["fields"]))
            ctor = {"named": f"{n} {{ {inner} }}", "tuple": f"{n}({inner})", "unit": n}[x["style"]]
            tree = ", ".join(f"self.{f['rid']}.tree()" for f in x["fields"])
            o.append(f"impl DV for {n} {{ fn of(v: &Value) -> Self {{ let _ = v; {ctor} }} fn tree(&self) -> Value {{ Value::Array(vec![{tree}]) }} }}")
        else:
            o.append(f"pub enum {n} {{")
            for v in x["vars"]:
                o.append("    " + " ".join(rattr(a) for a in v["attrs"]) + f" {v['rid']}{rs_fields(v['style'], v['fields'], '')},")
            o.append("}")
            of, tr = [], []
            for i, v in enumerate(x["vars"]):
                inner = "".join((f"{f['rid']}: " if v["style"] == "named" else "") + f"DV::of(&v[1][{j}]), " for j, f in enumerate(v["fields"]))
                pat = ", ".join((f"{f['rid']}: x{j}" if v["style"] == "named" else f"x{j}") for j, f in enumerate(v["fields"]))
                c, p = {"named": (f"{n}::{v['rid']} {{ {inner} }}", f"{n}::{v['rid']} {{ {pat} }}"), "tuple": (f"{n}::{v['rid']}({inner})", f"{n}::{v['rid']}({pat})"), "unit": (f"{n}::{v['rid']}",) * 2}[v["style"]]
                of.append(f"{i} => {c}")
                tr.append(f"{p} => json!([{i}, Value::Array(vec![{', '.join(f'x{j}.tree()' for j in range(len(v['fields'])))}])])")
            o.append(f"impl DV for {n} {{ fn of(v: &Value) -> Self {{ match v[0].as_u64().unwrap() {{ {', '.join(of)}, _ => panic!() }} }} fn tree(&self) -> Value {{ match self {{ {', '.join(tr)} }} }} }}")
    def mac(name, ts):
        o.append(f"#[macro_export]\nmacro_rules! {name} {{ ($n:expr, $T:ident => $body:expr) => {{ match $n {{")
        for n in ts: o.append(f'    "{n}" => {{ type $T = {rust(TYPES[n])}; $body }}')
        o.append('    other => panic!("unknown type {other}"),\n} } }')
    mac("with_type", TYPES)
    mac("with_opt_type", OPTTYPES)
    mac("with_third_type", THIRD)
    return "\n".join(o) + "\n"
def strip(x):
    if isinstance(x, dict): return {**{k: strip(v) for k, v in x.items() if k not in ("rs", "rid", "fn", "max1")}, **({"ref": 1} if x.get("rs") == "&'static str" else {})}
    if isinstance(x, list): return [strip(v) for v in x]
    return x
def emit():
    with open(os.path.join(V, "harness/fmt/src/gen.rs"), "w") as f: f.write(rs_source())
    with open(os.path.join(V, "specs/types.json"), "w") as f: f.write('{"decls":{\n' + ",\n".join(f'"{n}":' + json.dumps(strip(x), separators=(",", ":")) for n, x in DECLS.items()) + '},\n"types":{\n' + ",\n".join(f'"{n}":' + json.dumps(strip(x), separators=(",", ":")) for n, x in TYPES.items()) + "},\n\"shapes\":" + json.dumps(SHAPES) + "}\n")
if __name__ == "__main__":
    emit()
