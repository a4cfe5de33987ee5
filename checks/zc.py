"""musli-zerocopy checks: P18 .. P23."""

CHECKS = {}


def check(prop, level, what, bounds):
    def deco(f):
        CHECKS[prop] = {"run": f, "level": level, "what": what, "bounds": bounds}
        return f
    return deco


def rbytes(rng, n, alpha=None):
    return [rng.choice(alpha) if alpha else rng.randrange(256) for _ in range(n)]


@check("P22", "model_checking",
       "Trie.tla: ordered multimap + node structure; TLC-enumerated insertion histories and random dictionaries replayed on the real trie, recorded answers validated by TrieTrace.tla",
       "exhaustive: keys of length <=3 over 2 letters, <=3 insertions (4 thorough); random: <=14 keys over 1-4 letters incl. empty key, bytes 0/255, 4 flavors")
def p22(c):
    exe = c.build("zc")
    c.model("TrieModel", c.n("TrieModel.cfg", "TrieModelDeep.cfg"))
    hists = c.gen("TrieModel", c.n("TrieGen.cfg", "TrieGenDeep.cfg"))
    rng = c.rng
    rng.shuffle(hists)
    L = [97, 98]
    qall = [[]] + [[a] for a in L] + [[a, b] for a in L for b in L] + [[a, b, d] for a in L for b in L for d in L] + [[97, 97, 97, 97], [98, 97, 98, 97]]
    scripts = []
    flavors = ["d", "be", "packed", "str"]
    for i, h in enumerate(hists[:c.n(3400, 40000)]):
        scripts.append({"ins": h, "q": qall, "flavor": flavors[i % 4]})
    for i in range(c.n(600, 6000)):
        fl = rng.choice(flavors)
        alpha = rng.choice([[97, 98], [97, 98, 99], [120], [97, 98, 99, 100], [48, 57, 65, 90]])
        if fl != "str" and rng.random() < 0.4:
            alpha = rng.choice([[0, 1, 255], [127, 128, 129], [0, 97, 255]])
        keys = [rbytes(rng, rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9]), alpha) for _ in range(rng.randrange(0, 14))]
        # grow related keys: extensions, truncations and repeats
        for _ in range(rng.randrange(0, 4)):
            if keys:
                k = rng.choice(keys)
                keys.append(k[:rng.randrange(len(k) + 1)] + (rbytes(rng, 1, alpha) if rng.random() < 0.5 else []))
        rng.shuffle(keys)
        qs = [list(k) for k in keys] + [k[:-1] for k in keys] + [k + rbytes(rng, 1, alpha) for k in keys] + [[], rbytes(rng, 2, alpha)]
        qs += [k[:-1] + rbytes(rng, 1, alpha) + rbytes(rng, 1, alpha) for k in keys if k]
        scripts.append({"ins": [[k, j + 1] for j, k in enumerate(keys)], "q": [list(x) for x in sorted({tuple(q) for q in qs})], "flavor": fl})
    c.check(exe, "trie", "TrieTrace", scripts)


@check("P21", "model_checking",
       "SwissModel/PhfModel.tla: probing, mirrored control bytes, displacement and in-place permutation for arbitrary hashes; real swiss and phf maps/sets of every size compared with FiniteMap.tla (MapTrace.tla)",
       "models: 8 buckets/4 keys, 4 buckets wide group, phf 3-4 keys; conformance: every size 0..40, sizes around load limits up to 230 (1800 thorough), 6 key types, 3 byte orders, bound and unbound, hits and misses")
def p21(c):
    exe = c.build("zc")
    c.model("SwissModel", "SwissModelSmall.cfg")
    c.model("PhfModel", "PhfModelQuick.cfg")
    c.model("SwissModel", "SwissModel.cfg")
    if not c.quick:
        c.model("SwissModel", "SwissModelDeep.cfg")
        c.model("PhfModel", "PhfModel.cfg")
        c.model("PhfModel", "PhfModelSmall.cfg")
    rng = c.rng
    sizes = list(range(0, 41)) * 2 + [56, 57, 63, 64, 65, 112, 113, 128, 200, 224, 225, 230]
    sizes = sizes * c.n(1, 4) + ([] if c.quick else [448, 449, 500, 896, 897, 1000, 1792, 1800])
    scripts = []
    for n in sizes:
        for kind in ("swiss", "phf"):
            for _ in range(c.n(2, 6)):
                key = rng.choice(["u8", "u32", "u64", "i16", "str", "bytes"])
                if key == "u8" and n > 200:
                    key = "u32"
                m = n + rng.choice([1, 2, 5, 12])
                if key == "u8":
                    ks = rng.sample(range(256), min(m, 256))
                elif key == "i16":
                    ks = rng.sample(range(-32768, 32768), m) if rng.random() < .7 else list(range(-2, m - 2))
                elif key in ("u32", "u64"):
                    ks = rng.choice([lambda: rng.sample(range(2**31 - 1), m), lambda: list(range(m)), lambda: [i * 256 for i in range(m)], lambda: [i * 65536 % (2**31 - 1) for i in range(m)]])()
                    ks = list(dict.fromkeys(ks))
                else:
                    pool = {tuple(rbytes(rng, rng.choice([0, 1, 2, 3, 5, 8, 17, 33]), [97, 98, 99] if rng.random() < .5 else ([120, 121, 48, 57, 33] if key == "str" else [0, 255, 1, 128]))) for _ in range(3 * m)}
                    i = 0
                    while len(pool) < m:
                        pool.add(tuple(str(i).encode()))
                        i += 1
                    pool = sorted(pool)
                    rng.shuffle(pool)
                    ks = [list(x) for x in pool[:m]]
                rng.shuffle(ks)
                ents = [[k, rng.randrange(2**31 - 1)] for k in ks[:n]]
                scripts.append({"kind": kind, "key": key, "order": rng.choice(["ne", "be", "le64"]), "pre": rng.randrange(0, 20), "ents": ents, "q": ks if n <= 60 else ks[-40:] + rng.sample(ks, 25)})
    c.check(exe, "maps", "MapTrace", scripts)


TYPES = ["u8", "u16", "u32", "u64", "u128", "i16", "i64", "f32", "bool", "char", "nz8", "nz32", "nzi64", "nz128", "onz16", "a3u16", "a2S1", "a4bool", "unit", "S1", "S2", "S3", "S4", "T5", "P6", "P7", "S8", "S9", "A10", "S11", "Z12", "E1", "E2", "E3"]


@check("P19", "model_checking",
       "ZcTypes.tla gives layout and validity of every type; every load of the real code from generated bytes is validated by LoadTrace.tla",
       "34 types x random and boundary offsets (0..len+9, usize::MAX-k), 16 skews, buffers 0..96 bytes, counts incl. huge; valid, almost valid and arbitrary bytes; UTF-8 boundary strings")
def p19(c):
    exe = c.build("zc")
    rng = c.rng
    scripts = []
    alphas = [[0, 1], [0, 1], [0, 1, 1, 2], [0, 0, 0, 1, 2, 3, 5], [0, 0, 1, 44, 253, 7, 8, 254], None,
              [0, 16, 215, 216, 217, 223, 224, 255], [97, 98, 0xC3, 0xA9, 0xED, 0xA0, 0x9F, 0xE2, 0x82, 0xF0, 0x90, 0xF4, 0x8F, 0x80], [0, 0, 0, 0, 1]]
    utf = ["a", "é", "€", "𝄞", "\ud7ff", "\ue000", "\U0010ffff", "\u0800", "\u07ff", "\x7f", "\x80", "\U00010000"]
    for i in range(c.n(9000, 120000)):
        t = TYPES[i % len(TYPES)]
        a = rng.choice(alphas)
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 96])
        b = rbytes(rng, n, a)
        if rng.random() < 0.15:
            s = "".join(rng.choice(utf) for _ in range(rng.randrange(8))).encode("utf8", "surrogatepass")
            if rng.random() < .5 and s:
                s = list(s)
                s[rng.randrange(len(s))] ^= rng.choice([1, 0x20, 0x40, 0x80])
            b = list(s)[:96]
        elif rng.random() < 0.3 and b:
            for _ in range(rng.randrange(1, 3)):
                b[rng.randrange(len(b))] = rng.randrange(256)
        n = len(b)
        neg = rng.random() < 0.06
        off = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31]) if neg else rng.choice([0, 0, 0, 0, 4, 8, 16, 1, 2, rng.randrange(n + 1), rng.randrange(n + 10), n])
        zst = t in ("unit", "Z12")
        nneg = rng.random() < 0.05 and not zst
        cnt = rng.choice([0, 0, 1, 1, 2, 3, 4, n, max(n - off, 0), n // 4, 7, 200])
        if rng.random() < 0.03 and not zst:
            cnt = rng.choice([2**31 - 1, 2**30, 2**29 + 1])
        if nneg:
            cnt = rng.randrange(20)
        scripts.append({"t": t, "skew": rng.choice([0, 0, 0, 16, 8, 4, 2, 1, 3, 12, 32]), "b": b, "off": off, "neg": neg, "n": cnt, "nneg": nneg, "wrap": nneg and i % 2 == 0, "j": rng.randrange(n + 6)})
    c.check(exe, "load", "LoadTrace", scripts)


# ---- random values by type (trees, see harness/zc/src/types.rs)
PRIM = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8, "f32": 4, "f64": 8, "onz16": 2, "onz64": 8}
NZ = {"nz8": 1, "nz16": 2, "nz32": 4, "nzi64": 8, "nz128": 16}
AGG = {"S1": ["u8", "u32"], "S2": ["u8", "u64", "u16"], "S3": ["u16", "S1", "u8"], "S4": ["a2S1", "u128", "bool"], "T5": ["u32"], "P6": ["u8", "u32", "u16"],
       "P7": ["u8", "u8", "u32", "u8", "u64"], "S8": ["nz16", "bool", "char"], "S9": ["E1", "u8", "E2"], "A10": ["u8", "u16"], "S11": ["bool", "bool", "nz32", "a3bool"],
       "unit": [], "Z12": [], "SW": ["u16", "u16", "a2u32", "i64"]}
ENUM = {"E1": [[], ["u32"], ["u16", "u8"], ["bool", "u16"]], "E2": [[], [], ["u64"], []], "E3": [[], [], [], []], "EW": [["u16"], ["u16"], [], []]}
ARR = {"a3u16": (3, "u16"), "a2S1": (2, "S1"), "a4bool": (4, "bool"), "a3bool": (3, "bool"), "a2u32": (2, "u32")}


def tree(rng, t):
    if t in PRIM:
        return rng.choice([lambda: rbytes(rng, PRIM[t]), lambda: [0] * PRIM[t], lambda: [255] * PRIM[t], lambda: [1] + [0] * (PRIM[t] - 1)])()
    if t in NZ:
        b = rbytes(rng, NZ[t])
        return b if any(b) else [1] + b[1:]
    if t == "bool":
        return [rng.randrange(2)]
    if t == "char":
        return list(rng.choice([0, 97, 0xD7FF, 0xE000, 0x10FFFF, 0x20AC]).to_bytes(4, "little"))
    if t in ARR:
        return [tree(rng, ARR[t][1]) for _ in range(ARR[t][0])]
    if t in ENUM:
        x = rng.randrange(len(ENUM[t]))
        return [x] + [tree(rng, f) for f in ENUM[t][x]]
    return [tree(rng, f) for f in AGG[t]]


CFGS = {"ne32": (False, 4), "be32": (True, 4), "le16": (False, 2), "be16": (True, 2), "be64": (True, 8), "neus": (False, 8), "beus": (True, 8), "le8": (False, 1)}


@check("P18", "model_checking",
       "Builder.tla: the builder as a state machine; TLC checks alignment, separation, intact contents and zero padding on the design and enumerates histories; those and random long histories recorded from OwnedBuf and SliceMut are validated event by event against it (BuilderTrace.tla)",
       "design: every history of 3 (4 thorough) operations of 20; conformance: those histories plus random histories of up to 24 operations over 34 types, 8 byte order/offset width configurations, 4 initial alignments, growable and fixed buffers of 0..600 bytes")
def p18(c):
    exe = c.build("zc")
    c.model("BuilderModel", c.n("BuilderModel.cfg", "BuilderModelDeep.cfg"))
    hists = c.gen("BuilderModel", c.n("BuilderGen.cfg", "BuilderGenDeep.cfg"))
    rng = c.rng
    rng.shuffle(hists)
    scripts = []

    def script(ops):
        cfg = rng.choice(list(CFGS))
        tgt = rng.choice(["owned", "owned", "slice"])
        cap = rng.choice([0, 1, 7, 8, 16, 40, 100, 300]) if tgt == "owned" else rng.choice([0, 3, 16, 33, 64, 100, 256, 600, 600])
        scripts.append({"tgt": tgt, "cfg": cfg, "big": CFGS[cfg][0], "osz": CFGS[cfg][1], "al": rng.choice([1, 2, 8, 8, 16]), "cap": cap, "ops": ops})

    for h in hists[:c.n(1500, 12000)]:
        script(h)
    small = [t for t in TYPES if t not in ("S4", "a2S1")]
    for _ in range(c.n(500, 6000)):
        ops = []
        uninit = {}
        n = 0
        types = rng.sample(TYPES, rng.randrange(1, 5)) if rng.random() < .5 else TYPES
        for _ in range(rng.randrange(1, 24)):
            o = rng.choice(["store", "store", "store", "slice", "str", "uninit", "write", "ref", "ref", "next", "reqalign", "extend", "reserve", "swap", "swap", "alignip", "clone"] + ["clear"] * (rng.random() < .2))
            t = rng.choice(types)
            e = {"op": o}
            if o in ("store", "uninit", "next", "reqalign", "slice"):
                e["t"] = t
            if o == "store":
                e["v"] = tree(rng, t)
            if o == "slice":
                e["v"] = [tree(rng, t) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if o == "str":
                e["v"] = list("".join(rng.choice("aé€𝄞") for _ in range(rng.randrange(6))).encode())
            if o == "uninit":
                uninit[n] = t
            if o == "write":
                if not uninit:
                    continue
                k = rng.choice(list(uninit))
                e["i"], e["v"] = k + 1, tree(rng, uninit.pop(k))
            if o == "ref":
                e["i"] = rng.randrange(1, max(n, 1) + 1)
            if o == "extend":
                e["v"] = rbytes(rng, rng.choice([0, 1, 3, 8]))
            if o == "reserve":
                e["n"] = rng.choice([0, 1, 64, 300])
            if o == "swap":
                e["i"], e["j"] = rng.randrange(1, n + 2), rng.randrange(1, n + 2)
            if o in ("store", "slice", "str", "uninit"):
                n += 1
            if o == "ref":
                if e["i"] > n or e["i"] - 1 in uninit:
                    continue
                n += 1
                uninit.pop(n, None)
            if o == "clear":
                n, uninit = 0, {}
            ops.append(e)
        script(ops)
    c.check(exe, "builder", "BuilderTrace", scripts, weight=lambda r: len(r["ev"]))


@check("P20", "model_checking",
       "Portable.tla: byte order and width of numbers and references with exact 64-bit arithmetic on byte strings; every recorded construction, conversion and coercion of the real code is validated by PortTrace.tla",
       "24 number types (integers, floats, non-zero, arrays, structs, byte-swapped enums) and all 2 orders x 5 offset widths x boundary and random 64-bit offsets/lengths")
def p20(c):
    exe = c.build("zc")
    rng = c.rng
    scripts = []
    names = [t for t in list(PRIM) + ["bool", "nz16", "nz32", "nzi64", "nz128", "a3u16", "SW", "EW"] if t != "nz8"]
    for i in range(c.n(1500, 20000)):
        t = names[i % len(names)]
        scripts.append({"k": "num", "t": t, "v": tree(rng, t)})
    edge = sorted({x for k in (0, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64) for x in (2**k - 1, 2**k, 2**k + 1) if 0 <= x < 2**64})

    def num():
        return rng.choice([lambda: rng.choice(edge), lambda: rng.randrange(2 ** rng.randrange(1, 65)), lambda: rng.randrange(300)])()
    b8 = lambda n: list(n.to_bytes(8, "little"))
    for order in ("be", "le"):
        for size in ("u8", "u16", "u32", "u64", "usize"):
            top = 2 ** {"u8": 8, "u16": 16, "u32": 32}.get(size, 64) - 1
            pairs = [(a, b) for a in (0, 1, 258, top, top - 1) for b in (0, 1, 2, top // 4, top // 4 + 1, top // 2, top // 2 + 1, top)]
            pairs += [(num(), num()) for _ in range(c.n(250, 3000))]
            pairs += [(num() & top, num() & top) for _ in range(c.n(250, 3000))]
            for a, b in pairs:
                scripts.append({"k": "ref", "order": order, "size": size, "off": b8(a), "len": b8(b)})
    c.check(exe, "port", "PortTrace", scripts)


@check("P23", "model_checking",
       "SliceTrace.tla states the sequence algebra (index, split, iteration from both ends, binary search, exchange); every recorded answer of Ref and Packed slices is validated against it",
       "slices of 0..40 elements over 32 types at offsets 0..32 in 3 buffer configurations; binary search over ascending sequences with repeats of every length 0..40; exchanges of any two elements")
def p23(c):
    WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "unit": 0, "a3u16": 6, "S1": 8, "S2": 24, "S4": 48}
    exe = c.build("zc")
    rng = c.rng
    scripts = []
    types = list(TYPES)
    for i in range(c.n(2500, 30000)):
        t = types[i % len(types)]
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 40])
        if t in ("S4",) and n > 8:
            n = 8
        scripts.append({"k": "seq", "t": t, "cfg": rng.choice(["d", "be16", "le64"]), "pre": rng.randrange(33), "v": [tree(rng, t) for _ in range(n)], "i": rng.randrange(n + 2), "at": rng.randrange(n + 2)})
    for i in range(c.n(2500, 30000)):
        n = i % 41
        top = rng.choice([2, 5, 50, 1000, 90000])
        v = sorted(rng.randrange(top) for _ in range(n))
        x = rng.choice(v + [rng.randrange(top + 1)] * 3 + [0] + [y + 1 for y in v])
        scripts.append({"k": "bs", "v": v, "x": x})
    for i in range(c.n(800, 8000)):
        t = types[i % len(types)]
        n = rng.randrange(1, 7)
        scripts.append({"k": "swap", "t": t, "v": [tree(rng, t) for _ in range(n)], "i": rng.randrange(n + 1), "j": rng.randrange(n + 1)})
    plain = [t for t in TYPES if t in ("u8", "u16", "u32", "u64", "u128", "unit", "a3u16", "S1", "S2", "S4")]
    for i in range(c.n(1500, 15000)):
        n = rng.randrange(0, 200)
        def off():
            k = rng.random()
            if k < .08: return [1, rng.randrange(20)]
            if k < .3: return [0, max(0, n - rng.randrange(40))]
            return [0, rng.randrange(n + 3)]
        a, b, w = off(), off(), WIDTH[plain[i % len(plain)]]
        # overlapping places are not exchanged in any defined way
        if a[0] == 0 and b[0] == 0 and a != b and abs(a[1] - b[1]) < w:
            continue
        scripts.append({"k": "rawswap", "t": plain[i % len(plain)], "n": n, "a": a, "b": b})
    c.check(exe, "slices", "SliceTrace", scripts)
