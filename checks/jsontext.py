"""musli JSON: P07, P08, P09."""
import decimal as decimals
import itertools
import json
from fractions import Fraction
import direct
import universe as u
from fmt import check, has, tagging, CHECKS  # noqa: F401
from zc import rbytes

TYPES = [x for x in u.TYPES if x != "refcstr"]  # arrays of numbers cannot be borrowed as bytes

WS = [32, 9, 10, 13]


class Num(str):
    pass


def parse(b):
    """A document as a tree: None, bool, Num, str, list, ("obj", pairs)."""
    return json.loads(bytes(b).decode(), object_pairs_hook=lambda ps: ("obj", list(ps)), parse_int=Num, parse_float=Num, parse_constant=Num)


def nullable(m, t, seen=()):
    k = t["k"]
    if k in ("opt", "unit"):
        return True
    if k in ("w", "nz"):
        return nullable(m, t["t"], seen)
    if k == "d" and t["n"] not in seen:
        d = u.DECLS[t["n"]]
        a = {x["a"] for x in d["attrs"]}
        seen += (t["n"],)
        if d["k"] == "struct":
            return "transparent" in a and any(nullable(m, f["t"], seen) for f in d["fields"])
        return "untagged" in a or any(nullable(m, f["t"], seen) for x in d["vars"] if "transparent" in {y["a"] for y in x["attrs"]} for f in x["fields"])
    return False


def exact(m, name):
    if name in u.ASYM:
        return False  # written otherwise than read
    t = u.TYPES[name]
    if has(t, lambda x: x["k"] in ("rbytes",) or (x["k"] == "opt" and nullable(m, x["t"]))):
        return False
    if has(t, lambda x: x["k"] == "str" and x.get("rs") == "&'static str"):
        return False
    return not tagging(t, "internal", "untagged")


def script(m, w="", v=(), b=(), rs=(), rt=False):
    return {"m": m, "w": w, "v": v if w else [], "b": list(b), "rs": list(rs), "rt": rt}


# ---- rendering
def sp(rng, on):
    return [rng.choice(WS) for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))] if on else []


NAMED = {34: b'\\"', 92: b"\\\\", 47: b"\\/", 8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t"}


def hex4(rng, n):
    s = "%04x" % n
    return list(b"\\u") + [ord(rng.choice((c.lower(), c.upper()))) for c in s]


def rstr(rng, s, noise):
    out = [34]
    for ch in s:
        n = ord(ch)
        e = rng.random() < noise
        if n in NAMED and (e or n < 32 or n in (34, 92)) and rng.random() < .7:
            out += NAMED[n]
        elif e or n < 32 or n in (34, 92):
            if n >= 0x10000:
                out += hex4(rng, 0xd800 + ((n - 0x10000) >> 10)) + hex4(rng, 0xdc00 + ((n - 0x10000) & 0x3ff))
            else:
                out += hex4(rng, n)
        else:
            out += ch.encode()
    return out + [34]


def renum(rng, s):
    """Another spelling of the same number."""
    if any(c not in "-0123456789.eE+" for c in s):
        return s
    neg, body = (s[0] == "-"), s.lstrip("-")
    mant, _, ex = body.lower().partition("e")
    i, _, f = mant.partition(".")
    e = int(ex or 0)
    k = rng.randrange(6)
    if k == 0:
        f += "0" * rng.choice([1, 2, 7, 20])
    elif k == 1:
        i, e = i + "0" * 3, e - 3
        if len(i) > 1 and i[0] == "0":
            i = "0"
        f = "" if not f else f
        if f:
            i, e = mant.partition(".")[0], int(ex or 0)
    elif k == 2 and len(i) > 1:
        n = rng.randrange(1, len(i))
        i, f, e = i[:n], i[n:] + f, e + len(i) - n
    elif k == 3:
        f = f or "0"
    elif k == 4 and i != "0":
        n = rng.choice([1, 2, 5])
        i, f, e = "0", "0" * (n - 1) + i + f, e + len(i) + n - 1
    esign = "" if e >= 0 else "-"
    if e >= 0 and rng.random() < .4:
        esign = "+"
    t = ("-" if neg else "") + i + ("." + f if f else "")
    if e or rng.random() < .2:
        t += rng.choice("eE") + esign + "0" * rng.choice([0, 0, 1, 3]) + str(abs(e))
    return t


def render(rng, x, ws=True, esc=.3, num=0.):
    def go(x):
        if x is None:
            return list(b"null")
        if x is True:
            return list(b"true")
        if x is False:
            return list(b"false")
        if isinstance(x, Num):
            return list((renum(rng, x) if rng.random() < num else x).encode())
        if isinstance(x, str):
            return rstr(rng, x, esc)
        if isinstance(x, bytes):
            return list(x)
        o = [91] if isinstance(x, list) else [123]
        items = x if isinstance(x, list) else x[1]
        o += sp(rng, ws)
        for i, y in enumerate(items):
            if i:
                o += [44] + sp(rng, ws)
            if isinstance(x, list):
                o += go(y)
            else:
                o += (rstr(rng, y[0], esc) if isinstance(y[0], str) else go(y[0])) + sp(rng, ws) + [58] + sp(rng, ws) + go(y[1])
            o += sp(rng, ws)
        return o + ([93] if isinstance(x, list) else [125])
    return sp(rng, ws) + go(x)


# ---- structure
CPS = [0x20, 0x22, 0x2f, 0x5c, 0x61, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600] + list(range(32))


def rtext(rng, n=None):
    return "".join(chr(rng.choice(CPS)) if rng.random() < .6 else rng.choice("abcxyz019_ ") for _ in range(rng.choice([0, 1, 2, 3, 6, 15]) if n is None else n))


def any_doc(rng, depth=3):
    k = rng.randrange(9 if depth else 7)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k <= 3:
        return Num(number(rng))
    if k <= 6:
        return rtext(rng)
    if k == 7:
        return [any_doc(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 4]))]
    return ("obj", [(rtext(rng), any_doc(rng, depth - 1)) for _ in range(rng.choice([0, 1, 2, 4]))])


def nodes(x, at=()):
    yield at
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from nodes(y, at + (i,))
    elif isinstance(x, tuple):
        for i, y in enumerate(x[1]):
            yield from nodes(y[1], at + (i,))


def put(x, at, f):
    if not at:
        return f(x)
    i = at[0]
    if isinstance(x, list):
        return x[:i] + [put(x[i], at[1:], f)] + x[i + 1:]
    return ("obj", x[1][:i] + [(x[1][i][0], put(x[1][i][1], at[1:], f))] + x[1][i + 1:])


def edit(rng, x):
    """Another document of about the same structure."""
    def f(y):
        k = rng.randrange(8)
        if isinstance(y, tuple) and k < 5:
            ps = list(y[1])
            if k == 0:
                rng.shuffle(ps)
            elif k == 1:
                ps.insert(rng.randrange(len(ps) + 1), (rng.choice(["zzz", "", "77", rtext(rng)]), any_doc(rng, 2)))
            elif k == 2 and ps:
                ps.insert(rng.randrange(len(ps) + 1), rng.choice(ps))
            elif k == 3 and ps:
                del ps[rng.randrange(len(ps))]
            elif k == 4 and ps:
                i = rng.randrange(len(ps))
                ps[i] = (rng.choice(["0", "1", " 1", "1.0", "1e0", "-0", "-1", "01", "1 ", "+1", "256", "18446744073709551616", ps[i][0] + " ", ps[i][0] + "\0", number(rng)]), ps[i][1])
            return ("obj", ps)
        if isinstance(y, list) and k < 4:
            ps = list(y)
            if k == 0 and ps:
                del ps[rng.randrange(len(ps))]
            elif k <= 2:
                ps.insert(rng.randrange(len(ps) + 1), rng.choice(ps) if ps and k == 1 else any_doc(rng, 2))
            else:
                rng.shuffle(ps)
            return ps
        if isinstance(y, Num) and k < 6:
            return Num(number(rng) if k < 2 else renum(rng, y) if k < 4 else near(rng, y))
        if isinstance(y, str) and not isinstance(y, Num) and k < 5:
            return rng.choice([rtext(rng), y + rtext(rng, 1), y[:-1], y + "\0", y.upper()])
        return any_doc(rng, 2)
    return put(x, rng.choice(list(nodes(x))), f)


def near(rng, s):
    try:
        return str(int(s) + rng.choice([-1, 1, 256, -256, 1 << 32, 1 << 64, -1 << 63]))
    except ValueError:
        return s


# ---- numbers
BOUNDS = sorted({s * ((1 << w) + d) for w in (0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128) for d in (-1, 0, 1) for s in (1, -1)})


def decimal(q):
    """The exact decimal of a dyadic fraction."""
    n, d = abs(q.numerator), q.denominator
    k = d.bit_length() - 1
    s = str(n * 5 ** k).rjust(k + 1, "0")
    t = s if k == 0 else s[:-k] + "." + s[-k:]
    return ("-" if q < 0 else "") + t


def near_digits(q, n):
    with decimals.localcontext() as ctx:
        ctx.prec, ctx.Emax, ctx.Emin = n + 1, 9999, -9999
        return ("{:.%de}" % n).format(decimals.Decimal(q.numerator) / decimals.Decimal(q.denominator))


def floats(rng):
    """A decimal at, or right next to, a float or the middle of two."""
    p, emin, emax = rng.choice([(53, -1074, 971), (24, -149, 104)])
    e = rng.choice([emin, emin + 1, emax, emax, 0, -p, rng.randrange(-60, 60), rng.randrange(-60, 60), rng.randrange(emin, emax + 1)])
    m = rng.choice([(1 << p) - 1, 1 << (p - 1), (1 << p) - 2, rng.randrange(1 << (p - 1), 1 << p)])
    if e == emin:
        m = rng.choice([m, 1, 2, 3, rng.randrange(1 << (p - 1)), (1 << (p - 1)) - 1])
    half = rng.choice([0, 1, 1, 1])
    q = Fraction(2 * m + half) * Fraction(2) ** (e - 1)
    s = decimal(q)
    k = rng.randrange(5)
    if len(s) > 150 and rng.random() < .98:
        return rng.choice(["", "-"]) + near_digits(q, rng.choice([5, 8, 15, 16, 17, 18, 19, 20, 21, 25]))
    if "." not in s:
        s += ".0"
    if k == 1:
        s += "0" * rng.choice([1, 5]) + "1"
    elif k == 2:
        t = s.rstrip("0")
        if t[-1] != ".":
            s = t[:-1] + str(int(t[-1]) - 1) + "9" * rng.choice([1, 19, 30])
    elif k == 3:
        s = near_digits(q, rng.choice([5, 8, 15, 16, 17, 18, 19, 20]))
    if rng.random() < .3:
        i, f = s.split("e")[0].split(".") if "e" not in s else (None, None)
        if i is not None:
            d = (i + f).lstrip("0")
            ex = len(i) - (len(i + f) - len(d))
            if d:
                s = d[0] + "." + (d[1:] or "0") + "e" + str(ex - 1)
    return rng.choice(["", "", "-"]) + s


def number(rng):
    k = rng.randrange(12)
    if k <= 3:
        return str(rng.choice(BOUNDS) + rng.choice([0, 0, 0, rng.randrange(-12, 12)]))
    if k == 4:
        return renum(rng, str(rng.choice(BOUNDS)))
    if k == 5:
        return str(rng.choice([-1, 1]) * rng.randrange(10 ** rng.randrange(1, 41)))
    if k <= 8:
        return floats(rng)
    if k == 9:
        return rng.choice(["0", "-0", "0.0", "-0.0", "0e0", "-0e5", "0.000e99999", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e400", "5e-324", "2e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1e-400", "1e99999999999999999999", "1e-99999999999999999999", "3.4028235e38", "3.4028236e38", "1e39", "1e-45", "7e-46", "0.1", "0.3", "1e23", "9007199254740993", "16777217", "1" + "0" * 50, "0." + "0" * 60 + "1", "123456789" * 12])
    if k == 10:
        return renum(rng, floats(rng))
    return "%s%d.%de%d" % (rng.choice(["", "-"]), rng.randrange(1000), rng.randrange(100000), rng.randrange(-30, 30))


NUMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"]
DELIM = [[], [], [44], [93], [125], [32], [32, 44], [58], [10, 125]]


# ---- damage
def damage(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(12)
        i = rng.randrange(len(b) + 1)
        j = min(i, len(b) - 1)
        if k <= 1:
            b = b[:i]
        elif k <= 3 and b:
            b[j] = rng.choice([rng.randrange(256), 34, 92, 44, 58, 93, 125, 91, 123, 0, 31, 127, 128, 0xc3, 0xe2, 0xff, 0x2d, 0x30])
        elif k == 4 and b:
            b[j] ^= 1 << rng.randrange(8)
        elif k == 5 and b:
            b = b[:j] + b[j + 1:]
        elif k == 6:
            b = b[:i] + list(rng.choice([b"\\", b"\\u", b"\\u12", b"\\ud800", b"\\udc00", b"\\ud800\\u0041", b"\\x41", b"\\ud83d\\ude00", b"\\u0000", b"\\ud800\\ud800", b"\\uD8", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode()])) + b[i:]
        elif k == 7:
            b = b[:i] + list(rng.choice([b"-", b"+", b".", b"e", b"E5", b"0", b"1", b"--", b"1.", b".5", b"nul", b"tru", b"fals", b"NaN", b"Infinity", b"//", b"'", b"/**/"])) + b[i:]
        elif k == 8:
            b = b[:i] + [rng.choice(WS + [11, 12, 0xa0])] + b[i:]
        elif k == 9:
            b = b[:i] + list(rng.choice([b",", b",,", b":", b"]", b"}", b"[", b"{", b'"', b"null", b"[]", b"{}"])) + b[i:]
        elif k == 10 and b:
            q = [x for x in range(len(b)) if b[x] in (34, 44, 58, 91, 93, 123, 125)]
            if q:
                x = rng.choice(q)
                b = b[:x] + b[x + 1:]
        else:
            b = b + list(rng.choice(["\u00e9", "\u20ac", "x", "\U0001f600"]).encode())
    return b


TOKENS = [b"{", b"}", b"[", b"]", b",", b":", b'"', b'""', b'"a"', b"null", b"true", b"false", b"0", b"-", b"1.5", b"-1", b"1e5", b" ", b"\n", b"\\", b"nul", b"tr", b"\xff", "\u00e9".encode(), b"9", b"e", b".", b"\x00", b'"\\u', b"12"]


def soup(rng):
    return [x for _ in range(rng.randrange(1, 9)) for x in rng.choice(TOKENS)]


def seeds(c, exe, m, names, n):
    """Documents the real code writes for values of the types (only a source of texts)."""
    rng = c.rng
    _, lines = c.drive(exe, "json", [script(m, w, u.gen(rng, u.TYPES[w])) for w in names for _ in range(n)], name="seed" + m)
    out = []
    for l in lines:
        x = json.loads(l)
        if x["enc"]["r"] == "ok":
            try:
                out.append((x["w"], parse(x["enc"]["v"])))
            except ValueError:
                pass
    return out


def related(rng, w):
    return [w, "$any"] if rng.random() < .5 else [w, rng.choice(u.RELATED.get(w, list(TYPES)))]


def valid_docs(c, exe, m, n, nedit):
    rng, out = c.rng, []
    for w, x in seeds(c, exe, m, list(TYPES), n):
        suf = rng.choice([[], [], [32], [44], [93, 49], [10, 123]])
        num = isinstance(x, Num)
        out.append(script(m, b=render(rng, x, num=.3) + ([] if num and suf[:1] == [] else suf), rs=related(rng, w)))
        for _ in range(nedit):
            y = edit(rng, x)
            if rng.random() < .3:
                y = edit(rng, y)
            out.append(script(m, b=render(rng, y, ws=rng.random() < .7, esc=rng.choice([0, .2, 1]), num=.1) + rng.choice([[], [], [44]]), rs=related(rng, w)))
    return out


def numbers(c, n, rs):
    rng = c.rng
    return [script("Text", b=sp(rng, rng.random() < .4) + list(number(rng).encode()) + rng.choice(DELIM), rs=rng.sample(rs, 4) + ["f64", "f32", "$any"]) for _ in range(n)]


def powers():
    """Every power of ten within and just beyond the integers, spelled with and without exponents."""
    out = []
    for e in range(42):
        z = "0" * e
        out += [f"1e{e}", f"-1E+{e}", f"9e{e}", f"255e{e}", f"1{z}", f"12{z}e-{e}", f"-128{z}E-{e}", f"3.25e{e}", f"0.{z}7e{e + 1}", f"1.{z}5e{e + 1}", f"340282366920938463463374607431768211455e-{e}"]
    return [script("Text", b=x.encode(), rs=NUMS) for x in out]


def strings():
    """Every byte within a string, after a backslash, and as each digit of an escape; all pairs of surrogates at boundaries."""
    out = []
    for b in range(256):
        out += [[34, 97, b, 98, 34], [34, 92, b, 34], [34, 97, 92, b, 98, 34]]
        out += [[34, 92, 117, *(b if i == j else 48 + j for j in range(4)), 34] for i in range(4)]
    hs = ["d7ff", "D800", "dbFF", "dc00", "DFff", "e000", "0000", "ffff"]
    out += [list(f'"{a}{x}{b}{y}{d}"'.encode()) for x in (f"\\u{h}" for h in hs) for y in ["", *(f"\\u{h}" for h in hs)] for a, b, d in [("", "", ""), ("x", "", "y"), ("", "z", "")]]
    return [script("Text", b=x, rs=["str", "$any"]) for x in out]


def neighbours():
    """Every byte before, between and after tokens; every prefix of documents."""
    out = []
    for t in ("1", "-2.5e3", "true", "null", '"a"', "[]", "{}", "[1]"):
        t = list(t.encode())
        for b in range(256):
            out += [t + [b], [91] + t + [b] + t + [93], [b] + t]
    for t in ('{"a":[1,-2.50e+1,{"b\\u0041":null}],"c":[true,false,""]}', '[[],{},[[{}]], "\\ud83d\\ude00" ,0]'):
        t = list(t.encode())
        out += [t[:i] for i in range(len(t))] + [t[:i] + t[i + 1:] for i in range(len(t))]
    return [script("Text", b=x, rs=["$any", "unit"]) for x in out]


def every(n):
    """Every text of up to n pieces, among those out of which documents are made."""
    pieces = [b"0", b"1", b"-", b".", b"e", b'"', b"\\", b"[", b"]", b"{", b"}", b":", b",", b" ", b"null", b"true"]
    out = []
    for k in range(n + 1):
        out += [script("Text", b=b"".join(x), rs=["$any", "u8", "f64", "str", "o_u8", "v_u8", "unit"]) for x in itertools.product(pieces, repeat=k)]
    return out


@check("P07", "model_checking",
       "JsonText.tla: the grammar of RFC 8259, the code points of strings, exact integers, the nearest float (big-natural division) and what a document means as each type; documents decoded by the real code from all four kinds of source validated by JsonTrace.tla",
       "about 200 types and dynamic values; rewritten, reordered, extended and respelled documents, numbers at and around every integer boundary and float midpoint; parse-full")
def p07(c):
    c.model("JsonModel", c.n("JsonModelRead.cfg", "JsonModelReadDeep.cfg"))
    c.model("FloatModel")
    exe = c.build("fmt", ["jsonfull"])
    rng = c.rng
    out = numbers(c, c.n(700, 20000), NUMS)
    out += [script("Text", b=render(rng, rtext(rng, rng.choice([0, 1, 3, 8, 20])), esc=rng.choice([0, .5, 1])) + rng.choice(DELIM), rs=["str", "$any", "char"]) for _ in range(c.n(200, 5000))]
    out += [script("Text", b=render(rng, any_doc(rng, 4), num=.3), rs=["$any", "unit"]) for _ in range(c.n(250, 8000))]
    c.check(exe, "json", "JsonTrace", out, name="plain")
    c.check(exe, "json", "JsonTrace", powers() + strings(), name="systematic")
    for m in ("Text", "Binary"):
        c.check(exe, "json", "JsonTrace", valid_docs(c, exe, m, c.n(2, 30), c.n(2, 6)), name=m)


@check("P08", "model_checking",
       "JsonText.tla: which texts are errors; damaged, truncated, retyped and arbitrary texts decoded by the real code from all four kinds of source validated by JsonTrace.tla",
       "about 200 types and dynamic values; without parse-full")
def p08(c):
    exe = c.build("fmt", ["json"])
    rng = c.rng
    names = list(TYPES)
    s = script("Text", b=[91] * 300000, rs=["$any"])
    c.finding("deep-recursion", c.probe(exe, "json", s) == "crash", {"b": "[ repeated 300000 times", "rs": ["$any"]})
    c.check(exe, "json", "JsonTrace", powers() + strings() + neighbours() + every(c.n(3, 4)), name="systematic")
    for m in ("Text", "Binary"):
        out = []
        for w, x in seeds(c, exe, m, names, c.n(3, 30)):
            b = render(rng, x, ws=rng.random() < .4, esc=.1)
            out += [script(m, b=damage(rng, b), rs=related(rng, w)) for _ in range(3)]
            out.append(script(m, b=render(rng, edit(rng, x), ws=False, esc=.1), rs=related(rng, w)))
            out.append(script(m, b=b, rs=[rng.choice(names)]))
        if m == "Text":
            out += [script(m, b=soup(rng), rs=["$any", rng.choice(names), rng.choice(NUMS)]) for _ in range(c.n(1500, 20000))]
            out += [script(m, b=damage(rng, number(rng).encode()), rs=["$any", *rng.sample(NUMS, 2)]) for _ in range(c.n(700, 10000))]
            out += numbers(c, c.n(300, 5000), NUMS)
        c.check(exe, "json", "JsonTrace", out, name=m)


@check("P09", "model_checking",
       "JsonText.tla: which documents denote a term of the data model (Denotes); what the real code writes for values of every type, and reads back, validated by JsonTrace.tla; hand-written programs which use every method of encoders and decoders validated by DirectTrace.tla",
       "about 200 types in two modes, random values with boundary numbers and code points")
def p09(c):
    c.model("JsonModel", c.n("JsonModelWrite.cfg", "JsonModelWriteDeep.cfg"))
    exe = c.build("fmt", ["json"])
    s = script("Text", "E3", [1, [[1, 0, 0, 0], [[1]]]], rs=["E3"])
    c.finding("buffered-json", c.probe(exe, "json", s)["dec"][0]["slice"] != {"r": "ok", "v": [1, [[1, 0, 0, 0], [[1]]]], "left": 0, "valid": True}, s)
    for m in ("Text", "Binary"):
        out = [script(m, w, u.gen(c.rng, u.TYPES[w]), rs=[w], rt=exact(m, w)) for w in TYPES for _ in range(c.n(6, 60))]
        c.check(exe, "json", "JsonTrace", out, name=m)
    direct.run(c, "json", c.n(400, 5000))


def also(prop, what, part):
    """Extend a check of the byte formats."""
    x = CHECKS[prop]
    run = x["run"]

    def both(c):
        run(c)
        part(c)
    x["run"] = both
    x["what"] += what


def upgrades(c):
    exe = c.build("fmt", ["json"])
    out = [script(m, w, u.gen(c.rng, u.TYPES[w]), rs=g) for g in u.SHAPES for w in g for m in ("Text", "Binary") for _ in range(c.n(2, 25))]
    c.check(exe, "json", "JsonTrace", out, name="json")


def coercions(c):
    for feat in ("json", "jsonfull"):
        exe = c.build("fmt", [feat])
        rng, out = c.rng, []
        for w in u.INTS:
            out += [script("Text", w, u.gen(rng, u.TYPES[w]), rs=u.INTS) for _ in range(c.n(12, 120))]
        for g in u.INTLIKE:
            out += [script(rng.choice(["Text", "Binary"]), w, u.gen(rng, u.TYPES[w]), rs=g) for w in g for _ in range(c.n(5, 50))]
        out += [script("Text", b=(str(rng.choice(BOUNDS)) if rng.random() < .5 else renum(rng, str(rng.choice(BOUNDS)))).encode(), rs=u.INTS) for _ in range(c.n(200, 4000))]
        c.check(exe, "json", "JsonTrace", out, name=feat)


def derives(c):
    exe = c.build("fmt", ["json"])
    rng, out = c.rng, []
    for w in u.DECLS:
        for m in ("Text", "Binary"):
            out += [script(m, w, u.gen(rng, u.TYPES[w]), rs=[w, rng.choice(u.RELATED.get(w, list(u.DECLS))), rng.choice(list(u.DECLS))], rt=exact(m, w)) for _ in range(c.n(4, 40))]
    c.check(exe, "json", "JsonTrace", out, name="json")


also("P04", "; JSON by JsonTrace.tla", upgrades)
also("P06", "; JSON texts of integers read as every integer type by JsonTrace.tla", coercions)
also("P11", "; JSON in both modes by JsonTrace.tla", derives)
