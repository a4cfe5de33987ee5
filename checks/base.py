"""Byte sources, sinks, the slice allocator and its collections: P12 .. P15."""
import json

CHECKS = {}


def check(prop, level, what, bounds):
    def deco(f):
        CHECKS[prop] = {"run": f, "level": level, "what": what, "bounds": bounds}
        return f
    return deco


TOP = 2_000_000_000
TAKES = ["skip", "read", "arr", "bytes", "uninit"]


def tree(rng, hist):
    """A flat history of takes, pushes and copies as nested operations, each take by one of the ways to take."""
    def take(n):
        k = rng.choice(TAKES + (["byte"] * 3 if n == 1 else []) + (["peek"] if n == 0 else []))
        return [k, n]

    def block(i, stop):
        ops = []
        while i < len(hist):
            op, n = hist[i]
            if op in stop:
                return ops, i + 1
            if op == "take":
                ops.append(take(n))
                i += 1
            elif op == "push":
                sub, i = block(i + 1, ("pop",) + stop)
                # a copy which ends inside of a limit ends the limit too
                ops.append(["push", n, sub])
                if i <= len(hist) and hist[i - 1][0] == "unclone":
                    return ops, i
            elif op == "clone":
                sub, i = block(i + 1, ("unclone",))
                flat = [o for o in sub if o[0] != "push"]
                lim = [o for o in sub if o[0] == "push"]
                ops.append(["clone", 0, flat])
                for o in lim:
                    ops.append(["clonepush", o[1], [x for x in o[2] if x[0] != "push"]])
            else:
                i += 1
        return ops, i
    return block(0, ())[0]


def cursor_ops(rng, size, depth, budget):
    ops = []
    for _ in range(rng.randrange(1, budget)):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, size, size + 1, size // 2])
        if rng.random() < .04:
            n = TOP - rng.choice([0, 1, 2, size, size + 1, 7])
        k = rng.random()
        if k < .65:
            op = rng.choice(TAKES + ["byte", "byte", "peek"])
            if op == "arr" and n > 9:
                n = rng.choice([8, 16, 17])
            ops.append([op, n])
        elif k < .8 and depth < 3:
            ops.append(["push", n, cursor_ops(rng, size, depth + 1, max(2, budget - 2))])
        elif depth < 3:
            op = rng.choice(["mut", "mutpush", "clone", "clonepush"])
            ops.append([op, n, [o for o in cursor_ops(rng, size, 3, max(2, budget - 2)) if o[0] in TAKES + ["byte", "peek"]]])
    return ops


@check("P12", "model_checking",
       "CursorModel.tla: nested limit counters refine one cursor with absolute ends, also after failures and for copies; its histories and random nested scripts run on every real reader, every answer validated by CursorTrace.tla",
       "model: 5 bytes, 9 operations, 3 nested limits; conformance: all histories of 4 operations on 3 bytes (5 thorough), random scripts on 0-40 bytes with up to 3 nested limits and counts up to usize::MAX")
def p12(c):
    exe = c.build("base")
    c.model("CursorModel")
    hists = c.gen("CursorModel", c.n("CursorGen.cfg", "CursorGenDeep.cfg"))
    rng = c.rng
    kinds = ["slice", "sr", "mutslice", "mutsr"]
    scripts = []
    for h in hists:
        for kind in (rng.sample(kinds, 2) if c.quick else kinds):
            scripts.append({"src": [rng.randrange(256) for _ in range(3)], "kind": kind, "ops": tree(rng, h)})
    for _ in range(c.n(8000, 80000)):
        size = rng.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 40])
        scripts.append({"src": [rng.randrange(256) for _ in range(size)], "kind": rng.choice(kinds), "ops": cursor_ops(rng, size, 0, rng.choice([4, 6, 9]))})
    c.check(exe, "cursor", "CursorTrace", scripts)


@check("P13", "model_checking",
       "SinkModel.tla: a bounded sink holds exactly the accepted chunks; its histories and random writes run on every real target (SinkTrace.tla); values encoded by every format into every target at exact, larger and smaller capacities compared with the growable vector (TargetTrace.tla)",
       "model: capacities 0..8, 5 chunks of 0..9 bytes; conformance: all histories of 4 chunks on 8 targets, random longer ones; encoding: 6 formats, 7 types, slices of every capacity from 0 to one more than needed for small values")
def p13(c):
    exe = c.build("base", ["enc"])
    c.model("SinkModel")
    rng = c.rng
    kinds = ["vec", "mutvec", "bufsys", "bufslice", "fixed", "slice", "slice", "wrap", "wrap"]
    scripts = []

    def one(kind, cap, sizes):
        ops = []
        for n in sizes:
            d = [rng.randrange(256) for _ in range(n)]
            ops.append([rng.choice(["1", "m1"] if n == 1 and rng.random() < .6 else ["b", "e", "mb"]), d])
        own = []
        for _ in range(rng.randrange(0, 7) if kind == "fixed" else 0):
            k = rng.choice(["push", "push", "ext", "ext", "clear", "set", "cap"])
            n = 1 if k == "push" else rng.choice([0, 1, 2, 3, cap])
            own.append([k, [rng.choice([0, cap - 1, cap, cap + 1, 255]) % 256] if k == "cap" else [rng.randrange(256) for _ in range(n)]])
        return {"kind": kind, "cap": cap, "ops": ops, "own": own, "pre": [1, 2, 3][:rng.randrange(4)], "step": rng.choice([1, 2, 3, 100]), "zero": rng.random() < .5}

    for h in c.gen("SinkModel", "SinkGen.cfg"):
        scripts.append(one("fixed", h["cap"], h["h"]))
        scripts.append(one("slice", h["cap"], h["h"]))
        scripts.append(one("wrap", h["cap"], h["h"]))
    for _ in range(c.n(5000, 60000)):
        kind = rng.choice(kinds)
        cap = rng.choice([0, 1, 2, 3, 4, 5, 8, 16]) if kind == "fixed" else rng.choice([0, 1, 2, 3, 7, 16, 40])
        if kind == "bufslice":
            cap = rng.choice([0, 5, 23, 24, 64, 130, 400])
        scripts.append(one(kind, cap, [rng.choice([0, 1, 1, 1, 2, 3, 5, max(cap - 1, 0), cap, cap + 1]) for _ in range(rng.randrange(0, 9))]))
    c.check(exe, "sink", "SinkTrace", scripts)
    enc = []
    for fmt in ("storage", "packed", "wire", "descriptive", "json"):
        for ty in ("u64", "str", "seq", "rec", "kind", "pack", "bytes"):
            for _ in range(c.n(12, 120)):
                n = rng.choice([0, 1, 5, 127, 128, 255, 256, 300, 65535, 65536, 99999, 2**31 - 1])
                b = [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 30, 130]))]
                small = len(b) < 4 and ty != "rec"
                caps = list(range(0, 14)) if small else sorted(rng.sample(range(0, 80), 4))
                enc.append({"fmt": fmt, "ty": ty, "n": n, "b": b, "caps": caps})
    c.check(exe, "enc", "TargetTrace", enc)


def alloc_ops(rng, n, types, slots, big):
    ops = []
    for _ in range(n):
        k = rng.random()
        i = rng.randrange(slots)
        if k < .16:
            ops.append(["e", i, rng.choice(types)])
        elif k < .26:
            ops.append(["v", i, rng.choice(types), rng.randrange(256)])
        elif k < .56:
            m = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, big])
            if rng.random() < .03:
                m = TOP - rng.randrange(3)
            ops.append(["r", i, m])
            if rng.random() < .6:
                ops.append(["w", i, rng.choice([1, 2, 3, 8, 40]), rng.randrange(256)])
        elif k < .68:
            ops.append(["w", i, rng.choice([0, 1, 2, 3, 8, 40]), rng.randrange(256)])
        elif k < .88:
            ops.append(["f", i])
        else:
            ops.append(["m", i, rng.randrange(slots)])
    return ops


def shaped(rng, hist, names, scale):
    """A history of the model as operations on real elements."""
    ops = []
    for op in hist:
        if op[0] == "e":
            ops.append(["e", op[1] - 1, names[op[2] - 1]])
        elif op[0] == "v":
            ops.append(["v", op[1] - 1, names[op[2] - 1], rng.randrange(256)])
        elif op[0] == "r":
            ops.append(["r", op[1] - 1, op[2] * scale])
            ops.append(["w", op[1] - 1, op[2] * scale * 3, rng.randrange(256)])
        elif op[0] == "f":
            ops.append(["f", op[1] - 1])
        else:
            ops.append(["m", op[1] - 1, op[2] - 1])
    return ops


def again(rng, slots, size):
    """Everything is released, after which nearly all of the buffer has to be available."""
    order = list(range(slots))
    rng.shuffle(order)
    ops = [["f", i] for i in order] + [["e", 0, "1"]]
    n = size - 96 * (slots + 1)
    return ops + ([["r", 0, n], ["w", 0, n, 7], ["f", 0]] if n > 0 else [])


@check("P14", "model_checking",
       "SliceImpl.tla: the region list with free headers, gaps and the occupied head refines disjoint stable allocations; its histories and random scripts run on the real slice allocator, every placement and content validated by AllocTrace.tla",
       "model: 16 cells, 3 slots, 6 operations (7 thorough), 849k states; conformance: all histories of 4 operations on 2 slots and a sample of (thorough: all) those of 5 on 3 slots, random scripts of up to 60 operations on buffers of 0-2000 bytes at every misalignment, element sizes 0-32 and alignments 1-32")
def p14(c):
    exe = c.build("base")
    c.model("SliceImpl", c.n("SliceImplQuick.cfg", "SliceImpl.cfg"))
    rng = c.rng
    scripts = []
    hists = c.gen("SliceImpl", "SliceGen.cfg")
    deep = c.gen("SliceImpl", "SliceGenDeep.cfg")
    for h in hists + (rng.sample(deep, 4000) if c.quick else deep):
        names = rng.choice([["1", "2"], ["4", "8"], ["12", "32"], ["8", "16"], ["1", "16"], ["3", "32"], ["6", "4"]])
        size = rng.choice([64, 96, 120, 128, 192, 384, 768])
        scripts.append({"size": size, "off": rng.choice([0, 0, 1, 4, 8]), "ops": shaped(rng, h, names, rng.choice([1, 1, 2, 3, 5])) + again(rng, 3, size)})
    for _ in range(c.n(6000, 80000)):
        types = rng.choice([["1"], ["1", "8"], ["4", "2", "1"], ["1", "2", "3", "4", "6", "8", "12", "16", "32", "z"], ["8"], ["16", "1", "z"], ["12", "3"]])
        size = rng.choice([0, 1, 7, 8, 23, 24, 25, 31, 32, 40, 48, 56, 64, 72, 80, 96, 100, 128, 160, 200, 256, 400, 800, 2000])
        scripts.append({"size": size, "off": rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 63]), "ops": alloc_ops(rng, rng.choice([4, 6, 10, 20, 40]), types, rng.choice([2, 3, 4, 6]), rng.choice([1, 16, size, size // 2 + 1]))})
        if rng.random() < .3:
            scripts[-1]["ops"] += again(rng, 6, size)
        if rng.random() < .2:
            k = rng.choice(["u16", "u32", "u64", "u128", "m"])
            scripts[-1].update(kind=k, off=0, size=size // 16 * 16)
    c.check(exe, "alloc", "AllocTrace", scripts)


def coll_ops(rng, el, n, slots):
    ops, made = [], 0
    text = [65, 0, 127, 128, 233, 2047, 2048, 8364, 55295, 57344, 65535, 65536, 128512, 1114111]
    for _ in range(n):
        i = rng.randrange(slots)
        k = rng.random()
        big = rng.choice([0, 1, 2, 3, 5, 8, 17, 40] + ([TOP, TOP - 1] if rng.random() < .2 else []))
        if k < .14:
            ops.append([rng.choice(["new", "new", "snew"]), i])
        elif k < .2:
            ops.append([rng.choice(["cap", "cap", "scap"]), i, big])
        elif k < .52:
            for _ in range(rng.choice([1, 1, 2, 5])):
                made += 1
                ops.append([rng.choice(["push", "push", "push", "push", "box", "put"]), i, made])
        elif k < .6:
            ops.append([rng.choice(["pop", "pop", "clear", "raw", "std", "std"]), i])
        elif k < .64:
            ops.append(["res", i, big])
        elif k < .65:
            ops.append(["cmp", i, rng.randrange(slots)])
        elif k < .67:
            ops.append(["swap", i, rng.randrange(4), rng.randrange(4)])
        elif k < .73:
            ops.append(["xs", i, [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 9]))]])
        elif k < .78:
            ops.append(["ext", i, rng.randrange(slots)])
        elif k < .83:
            ops.append(["drop", i])
        elif k < .95:
            k = rng.choice(["spush", "sstr", "sstr", "sfmt", "schr"])
            ops.append([k, i, rng.choice(text) if k in ("spush", "schr") else [rng.choice(text) for _ in range(rng.randrange(4))]])
        elif k < .98:
            b = "".join(chr(rng.choice(text)) for _ in range(rng.randrange(4))).encode()
            b = list(b)
            if b and rng.random() < .5:
                b[rng.randrange(len(b))] = rng.choice([128, 191, 192, 193, 194, 224, 237, 240, 244, 245, 255])
            ops.append(["utf8", i, b])
        else:
            ops.append(["sbytes", i])
    return ops


DEC = {"vec": 5, "deque": 5, "heap": 5, "set": 5, "hset": 5, "map": 5, "kmap": 6, "hmap": 6, "box": 1, "bslice": 5, "rc": 1, "opt": 1, "res": 4, "arr0": 0,
       "arr3": 3, "arr32": 6, "tup": 5, "s3": 3, "p3": 3, "pa": 4, "e3": 4, "range": 2, "nest": 6}


@check("P15", "model_checking",
       "CollModel.tla: every element is held, handed back or dropped once in all histories with every answer; its histories and random ones run on the real collections in the system and slice allocators, each step validated by CollTrace.tla, and decoding of counted elements into every container with refused elements, cut and altered input",
       "model: 2 items, 4 operations (5 thorough, 6.3M states); conformance: all histories of 4 operations on 7 element types (a sample in quick), random ones of up to 40 operations, buffers of 0-1000 bytes; decoding: 23 containers, 2 formats, every element refused in turn, every cut")
def p15(c):
    exe = c.build("base")
    c.model("CollModel", c.n("CollModel.cfg", "CollModelDeep.cfg"))
    c.model("CollModel", "CollModelZst.cfg")
    rng = c.rng
    scripts = []

    def place(el, ops):
        kind = rng.choice(["sys", "slice"])
        scripts.append({"alloc": kind, "size": rng.choice([0, 0, 24, 48, 96, 160, 256, 480, 1000]) if kind == "slice" else 0, "el": el, "ops": ops})
    for cfg, els, few in (("CollGen.cfg", "dlzo", 3000), ("CollGenCopy.cfg", "uwn", 2000), ("CollGenText.cfg", "uw", 2000)):
        hists = c.gen("CollModel", cfg)
        for h in rng.sample(hists, few) if c.quick else hists:
            place(rng.choice(els), h)
    for _ in range(c.n(6000, 60000)):
        el = rng.choice("ddllzzouwn")
        place(el, coll_ops(rng, el, rng.choice([5, 10, 20, 40]), rng.choice([1, 2, 3, 5])))
    for ty, most in DEC.items():
        for fmt in ("storage", "descriptive"):
            for n in sorted({0, 1, 2, most}):
                for bad in range(-1, min(n, most)):
                    d = [rng.choice([1, 2, 3, 200]) for _ in range(n)]
                    if bad >= 0:
                        d[bad] = 255
                    for cut in [0] + ([] if bad >= 0 else list(range(1, c.n(4, 40)))):
                        scripts.append({"kind": "dec", "fmt": fmt, "ty": ty, "data": d, "cut": cut})
            for _ in range(c.n(20, 300)):
                d = [rng.choice([1, 2, 3, 200, 255]) for _ in range(rng.randrange(most + 1))]
                scripts.append({"kind": "dec", "fmt": fmt, "ty": ty, "data": d, "cut": rng.choice([0, 0, 1, 2]), "flip": [rng.randrange(12), 1 << rng.randrange(8)]})
    c.check(exe, "coll", "CollTrace", scripts)


X = {"k": "leaf"}


def named(**f):
    return [{"s": [["f", n]], "t": t} for n, t in f.items()]


def placed(*f):
    return [{"s": [["u", str(i)]], "t": t} for i, t in enumerate(f)]


def bare(*f):
    return [{"s": [], "t": t} for t in f]


def st(n, f):
    return {"k": "st", "n": n, "f": f}


def seq(t, lens=(0, 1, 2, 3), order=False):
    return {"k": "seq", "t": t, "lens": list(lens), "order": order}


def en(n, *v, untagged=False):
    return {"k": "en", "n": n, "untagged": untagged, "v": [{"n": a, "f": f} for a, f in v]}


def pmap(t, key, trace, lens=(0, 1, 2)):
    return {"k": "map", "t": t, "key": key, "trace": trace, "lens": list(lens)}


def tup(*t):
    return {"k": "tup", "f": bare(*t)}


def opt(t):
    return {"k": "opt", "t": t}


def path_types():
    S = st("S", named(a=X, b=X))
    P = st("P", placed(X, X))
    N = st("N", named(s=S, p=P, v=seq(X), o=opt(S)))
    K = st("K", named(a=X, b=S, c=X))
    T = st("T", bare(S))
    TX = st("TX", bare(X))
    E = en("E", ("A", []), ("B", placed(X)), ("C", named(x=X, y=seq(X))), ("D", placed(X, S)), ("T", bare(S)), ("K", named(x=X, y=X)))
    EI = en("EI", ("A", []), ("C", named(x=X, y=seq(X))), ("D", placed(X, S)))
    EA = en("EA", ("A", []), ("B", placed(X)), ("C", named(x=X, y=seq(X))))
    EU = en("EU", ("A", named(x=X, y=seq(X))), ("B", named(z=S, w=X)), ("C", named(q=P)), untagged=True)
    return {
        "X": X, "S": S, "P": P, "U": st("U", []), "N": N, "K": K, "KT": st("KT", placed(X, seq(X))), "T": T, "TX": TX,
        "R": st("R", named(first_one=X, second_one=S)), "I": st("I", named(a=X, b=T, c=K)), "D": st("D", named(a=seq(X), b=TX, c=tup(X, X))),
        "Deep": st("Deep", named(v=seq(seq(N, (0, 1, 2)), (1, 2)), e=seq(E, (0, 1, 2)), b=seq(S, (0, 1, 2)))),
        "M": st("M", named(n=pmap(X, "n", True), s=pmap(S, "s", True), p=pmap(X, "n", False))), "H": st("H", named(h=pmap(seq(X), "s", True, (0, 1)))),
        "E": E, "EI": EI, "EA": EA, "EU": EU, "ER": en("ER", ("A", placed(X)), ("B", named(b=X))),
        "HU": st("HU", named(u=seq(EU, (0, 1, 2)), i=EI, a=EA, last=X)),
        "vec": seq(X), "vecS": seq(S), "vecvec": seq(seq(X)), "deque": seq(X, (0, 1, 3, 4)), "set": seq(X, order=True), "hset": seq(X, (0, 1)), "heap": seq(X, (0, 1)), "bslice": seq(X), "parts": seq(X, (0, 1, 3, 4)), "partsIn": seq(X, (2, 3, 4)),
        "arr": seq(X, (3,)), "arrS": seq(S, (2,)), "tup": tup(X, S), "opt": opt(S), "box": S, "map": pmap(X, "n", False), "optvec": seq(opt(X)),
        "res": en("", ("", bare(X)), ("", bare(S))),
    }


def path_value(rng, t, leaves):
    k = t["k"]
    if k == "leaf":
        leaves.append(None)
        return ("leaf", len(leaves) - 1)
    if k in ("st", "tup"):
        return [path_value(rng, f["t"], leaves) for f in t["f"]]
    if k == "opt":
        return [path_value(rng, t["t"], leaves)] if rng.random() < .75 else []
    if k == "seq":
        return [path_value(rng, t["t"], leaves) for _ in range(rng.choice(t["lens"]))]
    if k == "map":
        n = rng.choice(t["lens"])
        keys = sorted(rng.sample([0, 3, 7, 300, 70000], n)) if t["key"] == "n" else sorted(rng.sample(["", "a", "b c", "long key"], n))
        return [[key, path_value(rng, t["t"], leaves), str(key)] for key in keys]
    i = rng.randrange(len(t["v"]))
    return [i, [path_value(rng, f["t"], leaves) for f in t["v"][i]["f"]]]


def with_leaves(v, leaves):
    if isinstance(v, tuple):
        return leaves[v[1]]
    if isinstance(v, list):
        return [with_leaves(x, leaves) for x in v]
    return v


def bad_sets(v, t):
    return isinstance(v, list) and t["k"] == "seq" and t.get("order")


def path_scripts(c):
    rng = c.rng
    types = path_types()
    out = []
    for ty, t in types.items():
        for fmt in ("storage", "packed", "wire", "descriptive", "json"):
            for _ in range(c.n(2, 12)):
                leaves = []
                shape = path_value(rng, t, leaves)
                good = with_leaves(shape, list(range(1, len(leaves) + 1)))
                many = len(leaves)
                spots = list(range(many))
                if c.quick and many > 4:
                    spots = sorted(rng.sample(spots, 4))
                for dir in ("enc", "dec"):
                    self_tagged = ty in ("EI", "EU", "HU")
                    if self_tagged and dir == "dec" and fmt != "json":
                        continue
                    # what such a variant is read from is a known finding of P09
                    if ty in ("EI", "HU") and dir == "dec":
                        shape, good = tame(ty, shape), tame(ty, good)
                    if fmt == "packed" and dir == "dec" and "opt" in json.dumps(t):
                        continue
                    sets = [[]] + [[s] for s in spots] + ([rng.sample(range(many), 2)] if many > 1 else [])
                    for s in sets:
                        leaves2 = [i + 1 for i in range(many)]
                        for i in s:
                            leaves2[i] = 255
                        v = with_leaves(shape, leaves2)
                        if ty == "set":
                            v = sorted(set(v))
                        out.append({"ty": ty, "t": t, "v": v, "good": good, "fmt": fmt, "dir": dir, "typed": rng.random() < .5})
                if not ty in ("EI", "EU", "HU") and fmt != "packed":
                    out.append({"ty": ty, "t": t, "v": good, "good": good, "fmt": fmt, "dir": "cut", "typed": rng.random() < .5})
    return out


def tame(ty, v):
    """Internally tagged values which JSON reads back: the variant without contents."""
    if ty == "EI":
        return [0, []]
    return [v[0], [0, []], v[2], v[3]]


STEPS = [["f", "a"], ["f", "b"], ["u", "0"], ["u", "12"], ["s", "Type"], ["s", "Other"], ["e", "E"], ["v", "A"], ["v", "B"], ["i", "0"], ["i", "41"], ["k", "key"],
         ["k", ""], ["k", "a long key, which takes up more room than the others do"]]


def trace_ops(rng, n):
    """A history of the calls a tracing context is given."""
    ops, depth, marks = [], 0, []
    for _ in range(n):
        live = [i for i, m in enumerate(marks) if m is not None]
        k = rng.choice(["enter", "enter", "enter", "enter", "leave", "leave", "adv", "mark", "restore", "msg", "msgat", "cust", "custat", "ask", "clear"])
        if k == "clear" and rng.random() < .7:
            k = "enter"
        text = rng.choice(["one", "two", "", "a message of some length", "Type: [0] { .. }"])
        if k == "enter":
            ops.append([k] + rng.choice(STEPS))
            depth += 1
        elif k == "leave" and depth:
            ops.append([k])
            depth -= 1
            marks = [None if m is None or m > depth else m for m in marks]
        elif k == "adv":
            ops.append([k, rng.choice([0, 1, 2, 7, 1000])])
        elif k == "mark":
            ops.append([k])
            marks.append(depth)
        elif k == "restore" and live:
            i = rng.choice(live)
            ops.append([k, i + 1])
            depth = marks[i]
            marks = marks[:i + 1] + [None] * (len(marks) - i - 1)
        elif k in ("msg", "cust"):
            ops.append([k, text])
        elif k in ("msgat", "custat") and live:
            ops.append([k, text, rng.choice(live) + 1])
        elif k == "ask":
            ops.append([k])
        elif k == "clear":
            ops.append([k])
            depth, marks = 0, [None] * len(marks)
    return ops + [["msg", "last"], ["ask"]]


def trace_scripts(c):
    rng = c.rng
    rooms = [0, 0, 16384, 65536, 100, 128, 160, 200, 256, 320, 400, 512, 700, 1024, 2048]
    out = []
    hists = c.gen("TracingModel", "TracingGen.cfg")
    for h in rng.sample(hists, 5000) if c.quick and len(hists) > 5000 else hists:
        out.append({"room": rng.choice(rooms), "typed": rng.random() < .5, "ops": h + [["msg", "last"], ["ask"]]})
    for _ in range(c.n(5000, 50000)):
        out.append({"room": rng.choice(rooms), "typed": rng.random() < .5, "ops": trace_ops(rng, rng.choice([4, 8, 12, 20, 40, 60]))})
    return out


@check("P16", "model_checking",
       "TracingModel.tla: a path which may refuse any step and a count of the refused keep the outermost steps, and marks bring back what there was; its histories and random ones run on the real tracing context in the system and slice allocators, validated by TracingTrace.tla; PathsTrace.tla computes from type and value which leaf fails first and the exact text shown for it, twice and with a clean use in between, and for every cut of the input compares the steps entered with those of the uncut read",
       "model: 5 operations (7 thorough); histories of 4 operations exhaustively and random ones up to 60; 28 types covering every derive representation, maps, sequences, arrays and tuples, a leaf refused at every position, encode and decode, 6 formats, every cut")
def p16(c):
    exe = c.build("base", ["paths"])
    c.model("TracingModel", c.n("TracingModel.cfg", "TracingModelDeep.cfg"))
    c.check(exe, "tracing", "TracingTrace", trace_scripts(c))
    c.check(exe, "paths", "PathsTrace", path_scripts(c))
