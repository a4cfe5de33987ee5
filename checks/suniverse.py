"""The universe of types for the serde bridge: serde types, where there is one the equivalent native type, and random
values of them.  `python3 checks/suniverse.py` writes harness/sd/src/gen.rs and specs/stypes.json."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import universe as u
from universe import (U, I, F, Opt, Seq, Set, Map, Tup, Arr, Res, Rng, W, D, STR, BOOL, CHAR, UNIT, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, codes)

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
US, IS = {"k": "us", "w": 8}, {"k": "is", "w": 8}
SBYTES = {"k": "sbytes"}
DECLS, TYPES = {}, {}


def field(i, f):
    """(name, type, options): name is what it is called when written"""
    o = f[2] if len(f) > 2 else {}
    return {"rid": str(i) if f[0] is None else o.get("rid", f[0]), "id": codes(f[0]) if f[0] else [], "t": f[1], "skip": int(o.get("skip", 0)), "def": int(o.get("def", 0)), "serde": o.get("serde", []), "native": o.get("native", [])}


def struct(n, style, *fs, serde=(), twin=True, native=()):
    DECLS[n] = {"k": "struct", "style": style, "fields": [field(i, f) for i, f in enumerate(fs)], "serde": list(serde), "twin": twin, "native": list(native)}


def var(n, style, *fs, serde=(), rid=None):
    return {"id": codes(n), "rid": rid or n, "style": style, "fields": [field(i, f) for i, f in enumerate(fs)], "serde": list(serde)}


def enum(n, *vs, tag="", content="", untagged=0, serde=(), twin=True):
    DECLS[n] = {"k": "enum", "vars": list(vs), "tag": codes(tag), "content": codes(content), "untagged": untagged, "serde": list(serde), "twin": twin and not tag and not untagged}


struct("Unit", "unit")
struct("Empty", "named")
struct("New", "newtype", (None, u32))
struct("NewStr", "newtype", (None, STR))
struct("Deep", "newtype", (None, D("New")))
struct("Pair", "tuple", (None, u8), (None, STR))
struct("Tri", "tuple", (None, Opt(u16)), (None, D("Unit")), (None, Seq(i32)))
struct("Rec", "named", ("a", u8), ("b", STR), ("c", Opt(u32)))
struct("Nest", "named", ("r", D("Rec")), ("v", Seq(D("Rec"))), ("m", Map(STR, D("Pair"))), ("t", Tup(u8, D("Unit"), BOOL)))
struct("Wide", "named", *[(f"field_{i}", t) for i, t in enumerate([u8, i8, u16, i16, u32, i32, u64, i64, BOOL, CHAR, STR, UNIT, f32, f64, Opt(BOOL), Seq(u8)])])
struct("Ren", "named", ("firstName", STR, {"rid": "first_name"}), ("other", u32, {"rid": "second", "serde": ['rename = "other"'], "native": ['name = "other"']}), ("last\u00e9", BOOL, {"rid": "third", "serde": ['rename = "last\u00e9"'], "native": ['name = "last\u00e9"']}), serde=['rename_all = "camelCase"'], native=['name_all = "camelCase"'])
struct("Skip", "named", ("a", u8), ("b", Opt(STR), {"skip": 1, "serde": ['skip_serializing_if = "Option::is_none"', "default"], "native": ["default, skip_encoding_if = Option::is_none"]}), ("c", u16), ("d", Opt(u8), {"skip": 1, "serde": ['skip_serializing_if = "Option::is_none"'], "native": ["default, skip_encoding_if = Option::is_none"]}))
struct("Bytes", "named", ("n", u8), ("b", SBYTES), ("s", Seq(SBYTES)))
struct("List", "named", ("value", u16), ("next", Opt(W("Box", D("List")))))
enum("Kind", var("One", "unit"), var("Two", "unit"), var("three", "unit", serde=['rename = "three"'], rid="Three"))
enum("Any", var("U", "unit"), var("N", "newtype", (None, u32)), var("T", "tuple", (None, u8), (None, STR)), var("S", "named", ("x", i16), ("y", Opt(STR))), var("E", "named"), var("V", "newtype", (None, Seq(D("Kind")))), var("O", "newtype", (None, Opt(u8))), var("R", "newtype", (None, D("Rec"))))
struct("Holds", "named", ("k", D("Kind")), ("a", D("Any")), ("v", Seq(D("Any"))), ("m", Map(u16, D("Any"))))
enum("Tree", var("Leaf", "newtype", (None, i32)), var("Node", "tuple", (None, W("Box", D("Tree"))), (None, W("Box", D("Tree")))))
enum("Internal", var("U", "unit"), var("N", "newtype", (None, D("Rec"))), var("S", "named", ("x", i16), ("y", Opt(STR)), ("z", Seq(u8))), tag="type", serde=['tag = "type"'])
enum("Adjacent", var("U", "unit"), var("N", "newtype", (None, u32)), var("T", "tuple", (None, u8), (None, STR)), var("S", "named", ("x", i16), ("y", Opt(STR))), tag="t", content="c", serde=['tag = "t"', 'content = "c"'])
enum("Untagged", var("S", "named", ("x", i16), ("y", STR)), var("T", "tuple", (None, BOOL), (None, STR)), var("B", "newtype", (None, BOOL)), var("Q", "newtype", (None, STR)), var("U", "unit"), untagged=1, serde=["untagged"])
struct("Mixed", "named", ("i", D("Internal")), ("l", Seq(D("Internal"))), ("n", u8))
# Native types with a field which goes through the bridge.
struct("Person", "named", ("name", STR), ("address", D("Rec")), ("kind", D("Any")), ("age", u8), native=["via address kind"])
DECLS["Person"]["via"] = ["address", "kind"]

for n, t in {"u8": u8, "u16": u16, "u32": u32, "u64": u64, "u128": u128, "i8": i8, "i16": i16, "i32": i32, "i64": i64, "i128": i128, "f32": f32, "f64": f64, "us": US, "is": IS, "bool": BOOL, "char": CHAR,
             "str": STR, "unit": UNIT, "bytes": SBYTES,
             "o_u8": Opt(u8), "o_str": Opt(STR), "o_o": Opt(Opt(u16)), "o_unit": Opt(UNIT), "v_o": Seq(Opt(u8)), "v_u8": Seq(u8), "v_u32": Seq(u32), "v_str": Seq(STR), "v_unit": Seq(UNIT), "v_v": Seq(Seq(u16)),
             "v_bytes": Seq(SBYTES), "set": Set(u32), "deque": Seq(i64, "VecDeque"), "boxsl": Seq(u16, "BoxSlice"), "tup1": Tup(u8), "tup2": Tup(u8, STR), "tup4": Tup(u16, BOOL, i64, CHAR), "tup8": Tup(u8, STR, f64, CHAR, i8, UNIT, Opt(BOOL), u64),
             "arr0": Arr(u8, 0), "arr3": Arr(u32, 3), "arr_s": Arr(STR, 2), "m_u32": Map(u32, STR), "m_i8": Map(i8, Opt(u8)), "m_str": Map(STR, Seq(u8)), "m_m": Map(STR, Map(u64, BOOL)), "m_bool": Map(BOOL, u8), "m_tup": Map(Tup(u8, u8), STR),
             "hm": {"k": "map", "kt": STR, "vt": u32, "rs": "HashMap", "max1": 1}, "v_m": Seq(Map(u8, Tup(u8, i16))),
             "ip4": u.IP4, "ip6": u.IP6, "ip": {"k": "ip"}, "sock4": u.SOCK4, "sock6": u.SOCK6, "sock": u.SOCK, "path": {"k": "path"}, "cstr": {"k": "cstr"}, "dur": {"k": "dur"},
             "range": Rng("Range", u16), "rangei": Rng("RangeInclusive", i32), "rangef": Rng("RangeFrom", u8), "ranget": Rng("RangeTo", u64), "res": Res(u32, STR), "nz": {"k": "nz", "t": u16}, "wrap": W("Wrapping", u32), "box": W("Box", STR), "ph": {"k": "unit", "rs": "PhantomData<u8>"},
             "cow": W("Cow", STR), "refstr": {"k": "str", "rs": "&'static str"}, "jv": {"k": "jv"}, "v_jv": Seq({"k": "jv"}), "lazy": {"k": "lazy", "t": u16}, "lazymap": {"k": "lazymap"}, "anyn": {"k": "anyn"}, "v_anyn": Seq({"k": "anyn"}), "boom": {"k": "boom"}, "v_boom": Seq({"k": "boom"}), "t_boom": Tup(u8, {"k": "boom"}, u8)}.items():
    TYPES[n] = t
for n in DECLS:
    TYPES[n] = D(n)
for n in ("Unit", "New", "Pair", "Rec", "Any", "Kind", "Internal", "Adjacent", "Untagged"):
    TYPES["v_" + n] = Seq(D(n))
TYPES["o_Any"] = Opt(D("Any"))
TYPES["o_Unit"] = Opt(D("Unit"))
TYPES["m_Kind"] = {"k": "map", "kt": D("Kind"), "vt": u8, "max1": 1}

EXTRA = {"sbytes": "Blob", "dur": "Duration", "jv": "Value", "boom": "Boom", "lazymap": "LazyMap", "anyn": "AnyNum"}


def rust(t):
    k = t["k"]
    if k in EXTRA:
        return EXTRA[k]
    if k == "lazy":
        return "Lazy"
    if k in ("opt", "seq", "set", "map", "tup", "arr", "res", "w"):
        # The parts first: they are passed on as types which stand for themselves.
        sub = lambda x: {"k": "d", "n": rust(x)}
        t = {**t, **{p: sub(t[p]) for p in ("t", "e", "kt", "vt") if isinstance(t.get(p), dict)}, **({"ts": [sub(x) for x in t["ts"]]} if "ts" in t else {})}
        if k == "w" and t["rs"] == "Cow":
            return "Cow<'static, str>"
    return u.rust(t)


def parts(t):
    yield t
    for p in ("t", "e", "kt", "vt"):
        if isinstance(t.get(p), dict):
            yield from parts(t[p])
    for x in t.get("ts", []):
        yield from parts(x)


NONE = {"ip", "ip4", "ip6", "sock", "sock4", "sock6", "path", "cstr", "dur", "rng", "res", "jv", "boom", "lazy", "lazymap", "anyn"}


def fields_of(x):
    return x["fields"] if x["k"] == "struct" else [f for v in x["vars"] for f in v["fields"]]


def has(t, p, seen=()):
    for x in parts(t):
        if p(x):
            return True
        if x["k"] == "d" and x["n"] not in seen and any(has(f["t"], p, seen + (x["n"],)) for f in fields_of(DECLS[x["n"]])):
            return True
    return False


def twinned(t):
    return not has(t, lambda x: x["k"] in NONE or x.get("rs", "").startswith("Phantom") or x.get("rs") == "BoxSlice" or (x["k"] == "d" and not DECLS[x["n"]]["twin"]))


def twin(t):
    # serde has no integers of the size of pointers of its own: they are those of 64 bits.
    return re.sub(r"\b(" + "|".join(DECLS) + r")\b", r"\1N", re.sub(r"\b([ui])size\b", r"\g<1>64", rust(t)))


def strip(x):
    if isinstance(x, dict):
        x = {**x, "to": x["rs"] == "RangeTo"} if x.get("k") == "rng" else {**x, "t": u16} if x.get("k") == "lazy" else x
        return {k: strip(v) for k, v in x.items() if k not in ("rs", "rid", "max1", "serde", "native", "twin", "via")}
    return [strip(v) for v in x] if isinstance(x, list) else x


# ---------------------------------------------------------------- random values
def jv(rng, d):
    k = rng.choice(["null", "bool", "pos", "neg", "f", "str"] + ([] if d > 3 else ["arr", "arr", "obj", "obj"]))
    if k == "null": return [k]
    if k == "bool": return [k, rng.randrange(2)]
    if k == "pos": return [k, u.gen(rng, u64)]
    if k == "neg": return [k, list((-rng.choice([1, 2, 128, 129, 32769, 2 ** 31 + 1, 2 ** 63, rng.randrange(1, 2 ** 40)])).to_bytes(8, "little", signed=True))]
    if k == "f":
        import struct as st
        return [k, list(st.pack("<d", rng.choice([0.5, -1.5, 0.1, 1e-7, 123.456, rng.uniform(-1000, 1000) + .001])))]
    if k == "str": return [k, u.gstr(rng, "str", d)]
    if k == "arr": return [k, [jv(rng, d + 1) for _ in range(rng.randrange(4))]]
    return [k, [[x, jv(rng, d + 1)] for x in u.uniq([u.gstr(rng, "str", 3) for _ in range(rng.randrange(4))], STR)]]


def gen(rng, t, d=0):
    k = t["k"]
    if k == "sbytes": return [rng.randrange(256) for _ in range(u.count(rng, d))]
    if k == "dur": return [u.gen(rng, u64), list(rng.choice([0, 1, 999999999, rng.randrange(10 ** 9)]).to_bytes(4, "little"))]
    if k == "jv": return jv(rng, d)
    if k == "anyn":
        x, w = rng.choice("ui"), rng.choice([1, 2, 4, 8, 16, 16])
        return [x, w, u.gen(rng, {"k": x, "w": w})]
    if k == "lazy": return [u.gen(rng, u16) for _ in range(u.count(rng, d))]
    if k == "lazymap": return [[x, u.gen(rng, u8)] for x in u.uniq([u.gstr(rng, "str", 3) for _ in range(rng.randrange(3))], STR)]
    if k == "boom": return rng.choice([1, 2, 253, 254, 255]) if rng.random() < .3 else rng.randrange(250)
    if k == "opt": return [] if rng.random() < .4 else [gen(rng, t["t"], d + 1)]
    if k == "seq": return [gen(rng, t["t"], d + 1) for _ in range(u.count(rng, d))]
    if k == "map":
        ks = [gen(rng, t["kt"], d + 1) for _ in range(rng.randrange(2) if "max1" in t else u.count(rng, d))]
        ks = u.uniq(ks, t["kt"]) if t["kt"]["k"] in ("u", "i", "str") else [json.loads(x) for x in sorted({json.dumps(x) for x in ks}, key=lambda x: json.loads(x))]
        return [[x, gen(rng, t["vt"], d + 1)] for x in ks]
    if k == "tup": return [gen(rng, x, d + 1) for x in t["ts"]]
    if k == "arr": return [gen(rng, t["t"], d + 1) for _ in range(t["n"])]
    if k == "res":
        n = rng.randrange(2)
        return [n, gen(rng, [t["t"], t["e"]][n], d + 1)]
    if k == "w": return gen(rng, t["t"], d)
    if k == "d":
        x = DECLS[t["n"]]
        if x["k"] == "struct": return [gen(rng, f["t"], d + 1) for f in x["fields"]]
        n = rng.randrange(len(x["vars"]))
        if t["n"] == "Tree" and d > 6: n = 0
        return [n, [gen(rng, f["t"], d + 1) for f in x["vars"][n]["fields"]]]
    return u.gen(rng, t, d)


# ---------------------------------------------------------------- Rust source
def dv(name, x, native):
    """Conversion between values and trees."""
    body = lambda p, b, nat: b
    def make(path, b, src):
        n = len(b["fields"])
        if b["style"] == "unit":
            return f"{path}(())" if native else path
        if native and b["style"] == "tuple":
            return f"{path}(({''.join(f'DV::of(&{src}[{i}]),' for i in range(n))}))"
        if b["style"] == "named":
            return f"{path} {{ {''.join(f'''{f['rid']}: DV::of(&{src}[{i}]), ''' for i, f in enumerate(b['fields']))}}}"
        return f"{path}({''.join(f'DV::of(&{src}[{i}]), ' for i in range(n))})"
    def pat(path, b):
        n = len(b["fields"])
        xs = ", ".join(f"x{i}" for i in range(n))
        if b["style"] == "unit":
            return f"{path}(())" if native else path
        if native and b["style"] == "tuple":
            return f"{path}(({xs},))"
        if b["style"] == "named":
            return f"{path} {{ {', '.join(f'''{f['rid']}: x{i}''' for i, f in enumerate(b['fields']))} }}"
        return f"{path}({xs})"
    tree = lambda b: "Value::Array(vec![" + ", ".join(f"x{i}.tree()" for i in range(len(b["fields"]))) + "])"
    if x["k"] == "struct":
        of, tr = make(name, x, "v"), f"let {pat(name, x)} = self; {tree(x)}"
    else:
        arms = enumerate(x["vars"])
        of = "match v[0].as_u64().unwrap() { " + ", ".join(f"{i} => {make(name + '::' + b['rid'], b, 'v[1]')}" for i, b in enumerate(x["vars"])) + ", _ => panic!() }"
        tr = "match self { " + ", ".join(f"{pat(name + '::' + b['rid'], b)} => json!([{i}, {tree(b)}])" for i, b in enumerate(x["vars"])) + " }"
    return f"impl DV for {name} {{ fn of(v: &Value) -> Self {{ let _ = v; {of} }} fn tree(&self) -> Value {{ {tr} }} }}"


def rs_body(b, native, pub, end):
    ty = twin if native else rust
    if b["style"] == "unit":
        return ("(())" if native else "") + end
    if b["style"] == "named":
        at = lambda f: "".join(f"#[musli({a})] " for a in f["native"]) if native else "".join(f"#[serde({a})] " for a in f["serde"])
        return " { " + "".join(f"{at(f)}{pub}{f['rid']}: {ty(f['t'])}, " for f in b["fields"]) + "}"
    if native and b["style"] == "tuple":
        return "((" + "".join(ty(f["t"]) + ", " for f in b["fields"]) + "))" + end
    return "(" + "".join(ty(f["t"]) + ", " for f in b["fields"]) + ")" + end


def rs_source():
    o = ["// Generated by checks/suniverse.py: do not edit.", "use crate::prelude::*;", "use crate::extra::*;", "use serde::{Deserialize, Serialize};", ""]
    transparent = lambda b: b["style"] in ("unit", "newtype", "tuple")
    for n, x in DECLS.items():
        if "via" in x:
            o.append("#[derive(Encode, Decode, Debug, Clone)]\n#[musli(name_all = \"name\")]")
            o.append(f"pub struct {n} {{ " + "".join(("#[musli(with = musli::serde)] " if f["rid"] in x["via"] else "") + f"pub {f['rid']}: {rust(f['t'])}, " for f in x["fields"]) + "}")
        else:
            o.append("#[derive(Serialize, Deserialize, Debug, Clone" + (", PartialEq, Eq, PartialOrd, Ord" if n == "Kind" else "") + ")]")
            o += [f"#[serde({a})]" for a in x["serde"]]
            if x["k"] == "struct":
                o.append(f"pub struct {n}{rs_body(x, False, 'pub ', ';')}")
            else:
                o.append(f"pub enum {n} {{")
                o += ["    " + "".join(f"#[serde({a})] " for a in v["serde"]) + v["rid"] + rs_body(v, False, "", "") + "," for v in x["vars"]]
                o.append("}")
        o.append(dv(n, x, False))
        if twinned(D(n)):
            native = [a for a in x.get("native", []) if not a.startswith("via")]
            o.append("#[derive(Encode, Decode, Debug, Clone" + (", PartialEq, Eq, PartialOrd, Ord" if n == "Kind" else "") + ")]")
            if x["k"] == "struct":
                o += ["#[musli(transparent)]"] if transparent(x) else [f"#[musli({a})]" for a in native or ['name_all = "name"']]
                o.append(f"pub struct {n}N{rs_body(x, True, 'pub ', ';')}")
            else:
                o.append('#[musli(name_all = "name")]')
                o.append(f"pub enum {n}N {{")
                for v in x["vars"]:
                    at = ["transparent"] if transparent(v) else ['name_all = "name"']
                    at += [f'name = {json.dumps(bytes(v["id"]).decode())}']
                    o.append("    " + "".join(f"#[musli({a})] " for a in at) + v["rid"] + rs_body(v, True, "", "") + ",")
                o.append("}")
            o.append(dv(n + "N", x, True))
    o.append("#[macro_export]\nmacro_rules! with_bridged { ($n:expr, $T:ident => $body:expr) => { match $n {")
    for n, t in TYPES.items():
        via = t["k"] == "d" and "via" in DECLS[t["n"]]
        o.append(f'    "{n}" => {{ type $T = {rust(t) if via else "W<" + rust(t) + ">"}; $body }}')
    o.append('    other => panic!("unknown type {other}"),\n} } }')
    o.append("#[macro_export]\nmacro_rules! with_twin { ($n:expr, $T:ident => $body:expr, $none:expr) => { match $n {")
    o += [f'    "{n}" => {{ type $T = {twin(t)}; $body }}' for n, t in TYPES.items() if twinned(t)]
    o.append("    _ => $none,\n} } }")
    return "\n".join(o) + "\n"


def emit():
    with open(os.path.join(V, "harness/sd/src/gen.rs"), "w") as f:
        f.write(rs_source())
    with open(os.path.join(V, "specs/stypes.json"), "w") as f:
        f.write('{"decls":{\n' + ",\n".join(f'"{n}":' + json.dumps(strip(x), separators=(",", ":")) for n, x in DECLS.items()) + '},\n"types":{\n' + ",\n".join(f'"{n}":' + json.dumps(strip(x), separators=(",", ":")) for n, x in TYPES.items()) + "}}\n")


if __name__ == "__main__":
    emit()
