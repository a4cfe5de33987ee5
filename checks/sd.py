"""The serde bridge: P17."""
import suniverse as s
from fmt import check
from zc import rbytes

CODECS = [("storage", "d", "Binary"), ("storage", "fix", "Binary"), ("packed", "fix", "Binary"), ("wire", "d", "Binary"), ("wire", "fixbig", "Text"),
          ("desc", "d", "Binary"), ("json", "d", "Text"), ("json", "d", "Binary")]


def selfless(t):
    """Types which serde only reads from formats which describe themselves."""
    return s.has(t, lambda x: x["k"] in ("jv", "anyn") or (x["k"] == "d" and s.DECLS[x["n"]]["k"] == "enum" and (s.DECLS[x["n"]]["untagged"] or s.DECLS[x["n"]]["tag"])))


def nullish(t):
    """Written as null in JSON."""
    return t["k"] in ("opt", "unit", "jv") or (t["k"] == "w" and nullish(t["t"])) or (t["k"] == "d" and s.DECLS[t["n"]]["k"] == "struct" and (s.DECLS[t["n"]]["style"] == "unit" or (s.DECLS[t["n"]]["style"] == "newtype" and nullish(s.DECLS[t["n"]]["fields"][0]["t"]))))


def exact(f, t):
    if f in ("storage", "wire", "packed") and selfless(t):
        return False
    if f == "packed" and s.has(t, lambda x: x["k"] == "opt"):
        return False
    return not (f == "json" and s.has(t, lambda x: x["k"] == "opt" and nullish(x["t"])))


def sizeless(t):
    """Sequences of elements of no size: any count is as good as another."""
    empty = lambda t: t["k"] in ("unit", "w") and (t["k"] == "unit" or empty(t["t"])) or (t["k"] == "d" and s.DECLS[t["n"]]["k"] == "struct" and all(empty(f["t"]) for f in s.DECLS[t["n"]]["fields"]))
    return s.has(t, lambda x: x["k"] in ("seq", "arr") and empty(x["t"]))


def scripts(c, n):
    rng, out = c.rng, []
    for f, o, m in CODECS:
        for name, t in s.TYPES.items():
            twin = f != "packed" and o == "d"
            others = [x for x in s.TYPES if s.twinned(s.TYPES[x]) and not sizeless(s.TYPES[x])]
            for _ in range(n):
                suf = [] if f == "json" else rng.choice([[], [0], [255, 255], rbytes(rng, rng.randrange(1, 9))])
                v = s.gen(rng, t)
                # What is escaped cannot be borrowed.
                rt = exact(f, t) and not (f == "json" and name == "refstr" and any(x < 32 or x in (34, 92) for x in v))
                out.append({"f": f, "m": m, "o": o, "w": name, "v": v, "suf": suf, "rs": [name] + (rng.sample(others, 2) if f != "packed" else []), "alts": [[rng.randrange(10 ** 6), rng.choice([0, 1, 255, 128, rng.randrange(256)])] for _ in range(0 if f == "packed" or sizeless(t) else 4)],
                            "cut": f not in ("packed", "json"), "rt": rt, "twin": twin})
    return out


@check("P17", "model_checking",
       "Serde.tla: the data-model term of every kind of value serde has (SModel), written as Codec.tla and JsonText.tla say; real bytes written and values read through the bridge, by equivalent native types, and each by the other, validated by SerdeTrace.tla; dynamic values by SerdeValue.tla",
       "110 types of every kind of the serde data model and every enum tagging, 8 format/mode/option sets and dynamic values, random boundary-biased values, every proper beginning of the input, altered bytes, refusals by Serialize and Deserialize implementations")
def p17(c):
    exe = c.build("sd", [])
    c.check(exe, "run", "SerdeTrace", scripts(c, c.n(4, 60)))
    c.check(exe, "value", "SerdeValue", [{"w": name, "v": s.gen(c.rng, t), "rt": True} for name, t in s.TYPES.items() for _ in range(c.n(4, 80))])


