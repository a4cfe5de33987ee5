"""Programs which write and read by hand: part of P01, P02, P03, P09 and P10."""
import universe as u

INTS = [(k, w) for k in "ui" for w in (1, 2, 4, 8, 16)] + [("us", 8), ("is", 8), ("f", 4), ("f", 8)]


def parts(rng, b):
    out = []
    while b:
        n = rng.randrange(1, len(b) + 1)
        out.append(b[:n])
        b = b[n:]
        if rng.random() < .2:
            out.append([])
    return out


def string(rng, d):
    s = bytes(u.gstr(rng, "str", d + 2)).decode()
    out, i = [], 0
    while i < len(s):
        n = rng.randrange(1, len(s) - i + 1)
        out.append(list(s[i:i + n].encode()))
        i += n
    return out


class Gen:
    def __init__(self, rng, f):
        self.rng, self.f = rng, f
        self.lossy = rng.random() < .5
        self.hard = rng.random() < .5

    def way(self, k, key):
        rng = self.rng
        if key or rng.random() < .75:
            return ""
        ok = ["decode"]
        if self.lossy:
            ok += ["skip", "skip"] if self.f in ("storage", "packed") else ["skip", "tryskip"]
        if self.hard:
            if self.f in ("desc", "value"):
                ok += ["any", "visit", "number", "buffer", "clone"]
            elif self.f != "json":
                ok += ["clone"]
            else:
                ok += ["visit", "visit", "number", "clone"]
        w = rng.choice(ok)
        return w if w != "number" or (k == "int" and self.f != "value") else ""

    def number(self):
        k, w = self.rng.choice(INTS)
        t = {"k": k, "w": w}
        return [k, w, u.gen(self.rng, t)]

    def take(self, n):
        return self.rng.randrange(n + 1) if self.lossy and self.rng.random() < .3 else n

    def kids(self, d):
        rng = self.rng
        if d > 4:
            return 0
        if rng.random() < .03:
            return rng.choice([30, 31, 32, 62, 63, 64, 65])
        return rng.choice([0, 1, 2, 2, 3, 4])

    def node(self, d=0, key=False, pack=False, noopt=False):
        rng = self.rng
        ks = ["bool", "char", "int", "int", "str", "str", "bytes", "array", "empty"] + (["seq", "seq", "map", "map", "var", "var", "some", "none", "pack"] if d < 5 else []) + (["seq", "map", "var"] * 2 if d < 2 else [])
        if self.f == "json" and key:
            ks = ["str", "int"]
        elif key:
            ks = ["str", "int", "bool", "char"]
        if pack:
            ks = [k for k in ks if k not in ("some", "none")]
        if noopt:
            ks = [k for k in ks if k not in ("some", "none", "empty")]
        k = rng.choice(ks)
        o = {"k": k, "w": "", "r": "", "n": 0, "as": self.way(k, key)}
        if pack and o["as"] == "tryskip":
            o["as"] = "skip"
        if k == "bool": x = rng.randrange(2)
        elif k == "char": x = rng.choice([0, 65, 127, 128, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 34, 92])
        elif k == "int":
            x = self.number()
            while self.f == "json" and (x[0] == "f"):
                x = self.number()
        elif k == "str": x, o["w"], o["r"] = string(rng, d), rng.choice(["", "collect"]), rng.choice(["", "unsized"])
        elif k == "bytes": x, o["w"], o["r"] = parts(rng, [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 31, 32, 63, 64, 130]))]), rng.choice(["", "vectored"]), rng.choice(["", "unsized"])
        elif k == "array": x = [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 4, 16, 70]))]
        elif k in ("empty", "none"): x = []
        elif k == "some": x = self.node(d + 1, pack=pack, noopt=self.f in ("json", "value"))
        elif k == "pack":
            o["w"] = rng.choice(["fn", ""])
            x = [self.node(d + 2, pack=True) for _ in range(rng.randrange(4))]
        elif k == "seq":
            x = [self.node(d + 1, pack=pack) for _ in range(self.kids(d))]
            o["w"] = rng.choice(["slice", "slices", "fn", "push", "next", "inner", "inners"])
            o["n"] = self.take(len(x))
            o["r"] = rng.choice(["try", "typed", "trytyped", "next", "hinted"] + (["over"] if self.lossy and o["n"] == len(x) and rng.random() < .3 else []))
        elif k == "map":
            x = [[self.node(d + 1, key=True, pack=pack), self.node(d + 1, pack=pack)] for _ in range(self.kids(d))]
            o["w"] = rng.choice(["entries", "insertentries", "fn", "entry", "entryfn", "inserted", "insert"])
            o["n"] = self.take(len(x))
            o["r"] = rng.choice(["", "hinted", "entries", "rest"])
        elif k == "var":
            t = self.node(d + 1, key=True, pack=pack)
            y = self.node(d + 1, pack=pack)
            x = [t, y]
            o["w"] = rng.choice(["", "fn", "insert"])
            if y["k"] == "empty" and rng.random() < .7: o["w"] = "unit"
            if y["k"] == "seq" and rng.random() < .7: o["w"] = "seq"
            if y["k"] == "map" and y["w"] not in ("entries", "insertentries") and rng.random() < .7: o["w"] = "map"
        o["x"] = x
        return o


OPTS = {"storage": ["d", "fix", "v32"], "packed": ["fix"], "wire": ["d", "fixbig", "v32"], "desc": ["d", "v32"], "json": ["d"], "value": ["d"]}


def run(c, f, n):
    exe = c.build("direct", ["storage" if f == "packed" else f])
    rng, out = c.rng, []
    for o in OPTS[f]:
        for _ in range(n):
            g = Gen(rng, f)
            p = g.node(pack=f == "packed")
            suf = [] if f in ("json", "value") else rng.choice([[], [0], [255, 255]])
            out.append({"f": f, "o": o, "p": p, "suf": suf, "cut": True})
    c.check(exe, "direct", "DirectTrace", out, name="direct-" + f)
