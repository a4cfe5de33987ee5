"""musli byte formats: P01 .. P05, P11."""
import direct
import universe as u
from zc import rbytes

CHECKS = {}


def check(prop, level, what, bounds):
    def deco(f):
        CHECKS[prop] = {"run": f, "level": level, "what": what, "bounds": bounds}
        return f
    return deco


STORAGE = ["d", "vbig", "fix", "fixbig", "fix8", "fix16b", "v32", "fixv"]
OPTS = {"storage": STORAGE, "wire": STORAGE, "packed": ["fix", "d", "fixbig"], "desc": ["d", "fix", "fixbig", "v32"]}
FULL = {"storage": "d", "wire": "d", "desc": "d", "packed": "fix"}


def walk(t, seen=()):
    """All types inside of t, with whether they are inside of a pack."""
    yield t
    for k in ("t", "e", "kt", "vt"):
        if isinstance(t.get(k), dict):
            yield from walk(t[k], seen)
    for x in t.get("ts", []):
        yield from walk(x, seen)
    if t["k"] == "d" and t["n"] not in seen:
        x = u.DECLS[t["n"]]
        for b in [x] if x["k"] == "struct" else x["vars"]:
            for f in b["fields"]:
                yield from walk(f["t"], seen + (t["n"],))


def has(t, p):
    return any(p(x) for x in walk(t))


def is_packed(x):
    return any(a["a"] == "packed" for a in x["attrs"])


def packed_option(t):
    """Options in packs are only told apart by the end of the input."""
    for x in walk(t):
        if x["k"] == "d":
            d = u.DECLS[x["n"]]
            for b in [d] if d["k"] == "struct" else d["vars"]:
                for f in b["fields"]:
                    if (is_packed(b) or is_packed(f)) and has(f["t"], lambda y: y["k"] == "opt"):
                        return True
    return False


def tagging(t, *kinds):
    def p(x):
        if x["k"] != "d" or u.DECLS[x["n"]]["k"] != "enum":
            return False
        a = {y["a"] for y in u.DECLS[x["n"]]["attrs"]}
        k = "untagged" if "untagged" in a else "adjacent" if "content" in a else "internal" if "tag" in a else "external"
        return k in kinds
    return has(t, p)


def exact(f, name):
    """Whether a value of the type can be told apart in the format at all."""
    t = u.TYPES[name]
    if name in u.ASYM:
        return False  # written otherwise than read
    if f == "packed" and has(t, lambda x: x["k"] == "opt"):
        return False
    if f in ("storage", "packed") and packed_option(t):
        return False
    if f not in ("storage", "packed") and has(t, lambda x: x["k"] == "rbytes"):
        return False  # known finding: written as a sequence, read as bytes
    if f in ("storage", "wire", "packed") and tagging(t, "internal"):
        return False
    return True


def script(f, m, o, w="", v=(), b=(), suf=(), rs=None, whole=False, rt=True, **kw):
    return {"f": f, "m": m, "o": o, "w": w, "v": v if w else [], "b": list(b), "suf": list(suf), "rs": rs if rs is not None else [w], "whole": whole, "rt": rt, **kw}


def roundtrips(c, f, m, o, names, n):
    rng, out = c.rng, []
    for name in names:
        t = u.TYPES[name]
        for i in range(n):
            v = u.gen(rng, t)
            top = name in u.DECLS and tagging({"k": "d", "n": name}, "untagged")
            whole = i % 3 == 0
            suf = [] if whole else rng.choice([[], [0], [255, 255], rbytes(rng, rng.randrange(1, 9))])
            out.append(script(f, m, o, name, v, suf=suf, whole=whole, rt=exact(f, name)))
    return out


def family(c, f, n, nopt):
    """Round trips of every type under the default options and of the option-sensitive ones under every other."""
    out = []
    for o in OPTS[f]:
        full = o == FULL[f]
        names = list(u.TYPES) if full else u.OPTTYPES
        out += roundtrips(c, f, "Binary", o, names, n if full else nopt)
    return out


def large(c, f, opts, m="Binary"):
    """Values which are longer than what is copied, allocated or counted in one go."""
    rng, out = c.rng, []
    ns = [253, 254, 255, 256, 257, 1000, 4096, 16383, 16384, 16385]
    for o in opts:
        for name, lens in {"v_u8": ns + [65535, 65536, 65537, 70000], "v_u16": [255, 256, 16384, 32768, 32769, 40000], "v_i32": [256, 4096, 16384, 16385, 17000], "v_u128": [128, 2048, 4096, 4097, 5000], "str": ns + [65536, 65600],
                           "rstr": [256, 16384], "v_str": [256, 300, 1025], "m_str_u32": [256, 300], "m_i64_str": [300], "dq_u16": [256, 33000], "v_bool": [256, 65537], "v_char": [256, 16385], "v_o": [300], "set_u16": [300], "boxsl_u16": [33000], "v_p8": [300]}.items():
            if name not in (u.TYPES if o == FULL[f] else u.OPTTYPES):
                continue
            t = u.TYPES[name]
            for n in lens if not c.quick else rng.sample(lens, min(3, len(lens))):
                if t["k"] == "str":
                    v = [rng.randrange(32, 127) for _ in range(n)]
                else:
                    gen = lambda t: u.gen(rng, t, 3)
                    v = [gen(t["t"] if t["k"] != "map" else t["kt"]) for _ in range(n)]
                    if t["k"] in ("map", "set"):
                        v = u.uniq(v, t.get("kt") or t["t"])
                    if t["k"] == "map":
                        v = [[k, gen(t["vt"])] for k in v]
                suf = rng.choice([[], [0], [255, 255]])
                out.append(script(f, m, o, name, v, suf=suf, rt=exact(f, name)))
    return out


def borrowed(c, exe, f):
    s = script(f, "Binary", "d", "rbytes", [1, 2])
    r = c.probe(exe, "run", s)
    c.finding("borrowed-byte-slice", r["dec"][0] != {"r": "ok", "v": [[1, 2], 0]}, s)


@check("P01", "model_checking",
       "Codec.tla: layout (Enc) and grammar (Dec) of the storage and packed formats over the typed universe of Schema.tla; real encodings and decodings validated by CodecTrace.tla; hand-written programs which use every method of encoders and decoders validated by DirectTrace.tla",
       "about 200 types, 8 storage and 3 packed option sets, random values with boundary lengths (up to 70000 elements) and integers, random suffixes")
def p01(c):
    c.model("CodecModel", c.n("CodecModelStorage.cfg", "CodecModelStorageDeep.cfg"))
    exe = c.build("fmt", ["storage"])
    for f in ("storage", "packed"):
        c.check(exe, "run", "CodecTrace", family(c, f, c.n(8, 80), c.n(6, 60)), name=f)
        c.check(exe, "run", "CodecTrace", large(c, f, ["d", "fix", "fixbig"] if c.quick else OPTS[f]), cfg="CodecLarge", name=f + "Large")
    for f in ("storage", "packed"):
        direct.run(c, f, c.n(300, 4000))


@check("P02", "model_checking",
       "Codec.tla: layout (Enc) and grammar (Dec) of the wire format over the typed universe of Schema.tla; real encodings and decodings validated by CodecTrace.tla; hand-written programs which use every method of encoders and decoders validated by DirectTrace.tla",
       "about 200 types, 8 option sets, random values with boundary lengths (up to 70000 elements) and integers, random suffixes")
def p02(c):
    c.model("CodecModel", c.n("CodecModelWire.cfg", "CodecModelWireDeep.cfg"))
    exe = c.build("fmt", ["wire"])
    c.check(exe, "run", "CodecTrace", family(c, "wire", c.n(10, 100), c.n(7, 70)))
    c.check(exe, "run", "CodecTrace", large(c, "wire", ["d", "fix", "fixbig"] if c.quick else OPTS["wire"]), cfg="CodecLarge", name="large")
    borrowed(c, exe, "wire")
    direct.run(c, "wire", c.n(400, 4000))


@check("P03", "model_checking",
       "Codec.tla: layout (Enc) and grammar (Dec) of the descriptive format over the typed universe of Schema.tla; real encodings and decodings validated by CodecTrace.tla; hand-written programs which use every method of encoders and decoders validated by DirectTrace.tla",
       "about 200 types, 4 option sets, random values with boundary lengths (up to 70000 elements) and integers, random suffixes")
def p03(c):
    c.model("CodecModel", c.n("CodecModelDesc.cfg", "CodecModelDescDeep.cfg"))
    exe = c.build("fmt", ["desc"])
    c.check(exe, "run", "CodecTrace", family(c, "desc", c.n(12, 100), c.n(8, 70)))
    c.check(exe, "run", "CodecTrace", large(c, "desc", ["d", "fix", "fixbig"] if c.quick else OPTS["desc"]), cfg="CodecLarge", name="large")
    borrowed(c, exe, "desc")
    direct.run(c, "desc", c.n(600, 6000))


@check("P04", "model_checking",
       "Upgrade.tla: what a reader of one version makes of a value of another, and Codec.tla for the bytes; values written by the real code as one version and read as the others validated by UpgradeTrace.tla",
       "36 versions in 10 families (structs, enums of three taggings, inside of sequences, maps, options and tuples) with fields of 16 shapes; storage, wire and descriptive")
def p04(c):
    c.model("UpgradeModel", c.n("UpgradeModel.cfg", "UpgradeModelDeep.cfg"))
    for feat, os in (("storage", ["d", "fix"]), ("wire", ["d"]), ("desc", ["d"])):
        exe = c.build("fmt", [feat])
        out = []
        for o in os:
            shapes = u.SHAPES if o == "d" else []
            for g in shapes:
                if "W3" in g and feat != "desc":
                    continue
                for w in g:
                    for i in range(c.n(12, 120)):
                        suf = c.rng.choice([[], [0], rbytes(c.rng, 5)])
                        out.append(script(feat, "Binary", o, w, u.gen(c.rng, u.TYPES[w]), suf=suf, rs=g, whole=i % 4 == 0 and not suf, rt=exact(feat, w)))
        c.check(exe, "run", "UpgradeTrace", out, name=feat)


def integers(c, n):
    """Integers written as each type and read as every other."""
    rng, out = c.rng, []
    groups = [u.INTS, *(g for g in u.INTLIKE)]
    for g in groups:
        for w in g:
            for _ in range(n if g is u.INTS else n // 3):
                out.append((w, u.gen(rng, u.TYPES[w]), g))
    return out


@check("P06", "model_checking",
       "Num.tla Convert (17-byte two's complement) inside of Codec.tla: integers of every type, alone and inside of containers, written by the real code in the descriptive format or captured dynamically and read as every other type, and arbitrary number tags with arbitrary payloads",
       "all 12 x 12 pairs of integer types, boundary and random values; sequences, maps, options, variants and structs of them")
def p06(c):
    c.model("NumModel")
    exe = c.build("fmt", ["desc", "value"])
    rng = c.rng
    ints = integers(c, c.n(40, 400))
    out = [script("desc", "Binary", "d", w, v, rs=g) for w, v, g in ints]
    for _ in range(c.n(1500, 20000)):
        b = [rng.randrange(64, 96)] + rng.choice([rbytes(rng, rng.randrange(1, 20)), [128 + rng.randrange(128) for _ in range(rng.randrange(0, 19))] + [rng.randrange(128)], [255] * rng.randrange(0, 19) + [rng.choice([0, 1, 3, 15, 127])]])
        out.append(script("desc", "Binary", "d", b=b, rs=u.INTS))
    c.check(exe, "run", "CodecTrace", out, name="desc")
    c.check(exe, "value", "ValueTrace", [{"w": w, "v": v, "rs": g, "rt": True} for w, v, g in ints], name="value")


@check("P11", "model_checking",
       "Schema.tla: the data model of derived and standard types in a mode (Model, Normal), from their attributes; encodings and decodings by the real code in the Text and Binary modes, and cross-mode and cross-type readings, validated by CodecTrace.tla",
       "about 110 derived types covering every attribute, both modes; three byte formats in Text mode, descriptive in Binary")
def p11(c):
    exe = c.build("fmt", ["text"])
    rng = c.rng
    names = list(u.TYPES)
    for f in ("storage", "wire", "desc"):
        out = roundtrips(c, f, "Text", "d", names, c.n(6, 60))
        out += fuzz(c, exe, f, "Text", "d", [x for x in names if x in u.DECLS or "u" in x], c.n(2, 20), 1)
        # what is declared for one side or for one mode, and the names at the edges of the policies
        out += roundtrips(c, f, "Text", "d", u.EDGES, c.n(12, 200))
        out += roundtrips(c, f, "Third", "d", u.THIRD, c.n(30, 300))
        out += fuzz(c, exe, f, "Third", "d", u.THIRD, c.n(6, 60), 1)
        out += [script(f, m, "d", w, u.gen(rng, u.TYPES[w]), rs=g, rt=exact(f, w)) for m, gs in (("Text", u.EDGE_RELATED), ("Third", [u.THIRD])) for g in gs for w in g for _ in range(c.n(3, 40))]
        c.check(exe, "run", "CodecTrace", out, name=f + "Text")
    exe = c.build("fmt", ["desc"])
    out = roundtrips(c, "desc", "Binary", "d", list(u.DECLS), c.n(12, 100))
    out += roundtrips(c, "desc", "Binary", "d", u.EDGES, c.n(12, 200))
    out += [script("desc", "Binary", "d", w, u.gen(rng, u.TYPES[w]), rs=g, rt=exact("desc", w)) for g in u.EDGE_RELATED for w in g for _ in range(c.n(4, 40))]
    for x in u.DECLS:
        for _ in range(c.n(4, 40)):
            out.append(script("desc", "Binary", "d", x, u.gen(rng, u.TYPES[x]), rs=[x, rng.choice(u.RELATED.get(x, list(u.DECLS))), rng.choice(list(u.DECLS))], rt=exact("desc", x)))
    c.check(exe, "run", "CodecTrace", out, name="desc")


def empty_at_end(f, o, t):
    """Whether a value of the type can be read from no input, so that a sequence of them has no bound."""
    nf = (f, o) in (("storage", "fix"), ("packed", "fix"))
    k = t["k"]
    if k == "unit":
        return nf
    if k == "opt":
        return f == "packed"
    if k == "arr":
        return t["n"] == 0 and nf
    if k == "d" and u.DECLS[t["n"]]["k"] == "struct" and is_packed(u.DECLS[t["n"]]):
        return all(empty_at_end("packed" if f != "packed" else f, o, x["t"]) for x in u.DECLS[t["n"]]["fields"])
    return False


def unbounded(f, o, name):
    return has(u.TYPES[name], lambda x: x["k"] in ("seq", "set") and empty_at_end(f, o, x["t"]))


def mutate(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(9)
        i = rng.randrange(len(b) + 1)
        if k <= 2:
            b = b[:i]
        elif k <= 4 and b:
            b[min(i, len(b) - 1)] = rng.choice([rng.randrange(256), 0, 1, 127, 128, 255, 63, 191, 130])
        elif k == 5 and b:
            j = min(i, len(b) - 1)
            b[j] ^= 1 << rng.randrange(8)
        elif k == 6:
            b = b[:i] + rbytes(rng, rng.randrange(1, 4)) + b[i:]
        elif k == 7 and b:
            j = min(i, len(b) - 1)
            b = b[:j] + b[j + 1:]
        else:
            b = b[:i] + rng.choice([[255] * rng.randrange(1, 12), [128] * rng.randrange(1, 20) + [rng.choice([0, 1])], [255] * 9 + [1], [127]]) + b[i:]
    return b


def fuzz(c, exe, f, m, o, names, n, nrandom):
    """Truncated, damaged, foreign and arbitrary byte strings, read as every type."""
    import json
    rng = c.rng
    names = [x for x in names if not unbounded(f, o, x)]
    first = [script(f, m, o, x, u.gen(rng, u.TYPES[x]), rs=[]) for x in names for _ in range(n)]
    _, lines = c.drive(exe, "run", first, name="seed")
    out = []
    heads = {"storage": [0, 1, 2, 3, 127, 128, 255], "packed": [0, 1, 2, 255], "wire": [64, 65, 66, 127, 128, 129, 130, 131, 132, 191, 192, 193, 200, 254, 255, 63], "desc": [77, 81, 76, 85, 92, 96, 97, 98, 127, 128, 129, 130, 159, 160, 161, 192, 193, 224, 225, 226, 227, 228, 229, 230, 231, 255, 3]}[f]
    for l in lines:
        x = json.loads(l)
        b = x["enc"]["v"] if x["enc"]["r"] == "ok" else []
        w = x["w"]
        other = rng.choice(names)
        for y in (mutate(rng, b), mutate(rng, b)):
            out.append(script(f, m, o, b=y, rs=[w]))
        out.append(script(f, m, o, b=b, rs=[other]))
        if b and rng.random() < .3:
            out.append(script(f, m, o, b=b[:-1], rs=[w]))
    for w in names:
        for _ in range(nrandom):
            k = rng.randrange(1, 12)
            out.append(script(f, m, o, b=[rng.choice(heads) if rng.random() < .6 else rng.randrange(256) for _ in range(k)], rs=[w]))
    return out


SMALL = ["u8", "u16", "i32", "u128", "bool", "char", "unit", "str", "nz16", "o_u8", "v_u8", "v_bool", "v_unit", "o_unit", "m_u8_v", "a3_u16", "t1", "t2", "rfull", "usize", "f32", "res", "cstr", "V1", "E1"]
EDGES = {"storage": [0, 1, 2, 3, 65, 127, 128, 129, 254, 255], "wire": [0, 1, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 194, 255], "desc": [0, 1, 65, 76, 77, 81, 92, 96, 97, 98, 127, 128, 129, 130, 159, 160, 161, 192, 193, 224, 225, 226, 227, 228, 229, 230, 231, 255]}


def every(c, f, o, n):
    """Every byte string of up to n of the bytes at which the format changes its mind, read as every small type."""
    import itertools
    al = EDGES["storage" if f == "packed" else f]
    names = [x for x in SMALL if x in (u.TYPES if o == FULL[f] else u.OPTTYPES) and not unbounded(f, o, x)]
    return [script(f, "Binary", o, b=b, rs=names) for k in range(n + 1) for b in itertools.product(al, repeat=k)]


@check("P05", "model_checking",
       "Codec.tla: the grammar of every type in every byte format; truncated, damaged, retyped and arbitrary byte strings decoded by the real code, verdicts and values validated by CodecTrace.tla",
       "about 200 types, 4 formats, 8 option sets; inputs up to a few hundred bytes")
def p05(c):
    c.model("GrammarModel", c.n("GrammarModel.cfg", "GrammarModelDeep.cfg"))
    for feat, fs in (("storage", ["storage", "packed"]), ("wire", ["wire"]), ("desc", ["desc"])):
        exe = c.build("fmt", [feat])
        if feat == "storage":
            s = script("packed", "Binary", "d", b=[255] * 9 + [1], rs=["v_o_u32"])
            c.finding("packed-optional-elements", c.probe(exe, "run", s) in ("hang", "crash"), s)
        deep = {"storage": [2, 0, 0, 1, 1], "wire": [132, 192, 192, 193, 129], "desc": [130, 77, 0, 77, 0, 77, 1, 97]}[feat]
        s = script(feat, "Binary", "d", b=deep * 300000, rs=["Tree"])
        c.finding("deep-recursion", c.probe(exe, "run", s) == "crash", {"f": feat, "b": [deep, "repeated 300000 times"], "rs": ["Tree"]})
        for f in fs:
            for o in OPTS[f]:
                full = o == FULL[f]
                names = list(u.TYPES) if full else u.OPTTYPES
                s = fuzz(c, exe, f, "Binary", o, names, c.n(4 if full else 2, 40), c.n(6 if full else 3, 60))
                c.check(exe, "run", "CodecTrace", s, name=f + o)
                c.check(exe, "run", "CodecTrace", every(c, f, o, c.n(2, 3) if full else 2), name=f + o + "Every")


def near(rng, w, v):
    """(type, value) which is the same as the value, or nearly."""
    t = u.TYPES[w]
    if w in ("V1", "V2") and rng.random() < .5:
        return "V2" if w == "V1" else "V1", v[::-1]
    k = rng.random()
    if k < .3:
        return w, v
    if t["k"] == "d" and u.DECLS[t["n"]]["k"] == "struct" and v and k < .8:
        fs, i = u.DECLS[t["n"]]["fields"], rng.randrange(len(v))
        return w, v[:i] + [u.gfield(rng, fs[i], 1)] + v[i + 1:]
    if t["k"] == "seq" and v and k < .8:
        i = rng.randrange(len(v))
        return w, rng.choice([v[:-1], v + [v[-1]], v[::-1], v[:i] + [u.gen(rng, t["t"], 1)] + v[i + 1:]])
    if t["k"] == "map" and v and k < .8:
        i = rng.randrange(len(v))
        return w, v[:i] + [[v[i][0], u.gen(rng, t["vt"], 1)]] * (k < .6) + v[i + 1:]
    x = rng.choice(u.RELATED.get(w, [w])) if k > .9 else w
    return x, u.gen(rng, u.TYPES[x])


def values(c, n, names=None):
    rng, out = c.rng, []
    allnames = list(u.TYPES)
    for w in names or allnames:
        for _ in range(n):
            out.append({"w": w, "v": u.gen(rng, u.TYPES[w]), "rs": [w, rng.choice(allnames), rng.choice(u.RELATED.get(w, allnames))], "rt": exact("value", w)})
            out[-1]["w2"], out[-1]["v2"] = near(rng, w, out[-1]["v"])
    return out


@check("P10", "model_checking",
       "Codec.tla: dynamic values (Capture, DescAny, DecV) of the typed universe; real captures, reads of captures as the same and other types, and descriptive round trips of captures validated by ValueTrace.tla; hand-written programs which use every method of encoders and decoders validated by DirectTrace.tla",
       "about 200 types, random values, each read as its own and two other types")
def p10(c):
    c.model("CodecModel", c.n("CodecModelValue.cfg", "CodecModelValueDeep.cfg"))
    exe = c.build("fmt", ["value"])
    c.check(exe, "value", "ValueTrace", values(c, c.n(12, 120)))
    direct.run(c, "value", c.n(500, 6000))
