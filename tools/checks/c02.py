"""C02: the parser accepts exactly its language and yields the denoted value."""
from lib import *
from gen import *
from checks import bulk
import checks.writer as wr

ASSUMPTIONS = ["float literals are compared to a relative tolerance of 2e-15",
               "literals within 1e-15 of the largest double and below 1e-300 are not generated"]

def S(*xs): return {tuple(cp(x)) if isinstance(x, str) else tuple(x) for x in xs}
def setof(s): return "{" + ", ".join(sorted(tla(list(x)) for x in s)) + "}"

def enum(chk, name, alphabet, syms, prefixes=("",), suffixes=("",), cfg="Cfg64"):
    r = run_tlc(chk, name, "MC_Reader",
                defs=f"A == {setof(S(*alphabet))}\nP == {setof(S(*prefixes))}\nSf == {setof(S(*suffixes))}\n",
                constants=dict(Alphabet="<- A", Starts="<- P", Ends="<- Sf", MaxSyms=syms, NumCfg="<- " + cfg),
                invariants=["TypeOK", "Incremental", "DeadIsDead", "Emit"], emit=True)
    if r.violated: raise CheckError("specification: " + r.violated)
    return list(tlc_json(r.lines))

# one text per lexer mode and grammar position, each followed by every character
MODES = ["", "[", "[1", "[1,", "{", '{"a"', '{"a":', '{"a":1', '{"a":1,', "1", "-", "0", "1.", "1.5", "1e", "1e+", "1e5",
         "0.5", "12", "/", "//", "/*", "/**", "//x", '"', '"a', '"\\', '"\\u', '"\\u0', '"\\u00', '"\\u004', '"\\u0041',
         '"\\ud834', '"\\ud834\\', '"\\ud834\\u', '"\\ud834\\udd1', "t", "tr", "tru", "true", "f", "fals", "false", "n",
         "nul", "null", "1 ", "[] ", '"a" ', "[[]", "[{}", '{"a":[', '{"a":[]', "+", "+1", "-0", "[1 ", "[1/", '{"a"/', "[/*", "1//", "1/*"]
SUFF = ["", "1", "1]", "]", "}", ":1}", "1}", '"', '"]', "*/1", "\n1", "e", "ull", "alse", "rue", "udd1e\"", "0041\"", "41\""]

def corpus(chk):
    q = chk.quick
    yield "structure", enum(chk, "structure", ["[", "]", "{", "}", ",", ":", '"a"', '"b"', "1", " ", "true", "-"], 6 if q else 7)
    yield "members", enum(chk, "members", ["}", ",", ':', '"a"', '"a":', '"b":2', "[", "]", "{", "1", "null"], 6 if q else 7, ["{", '[{"a":1,'])
    yield "numbers", enum(chk, "numbers", list("-+019.eE") + ["\u0130", " ", ",", "/"], 5 if q else 6, ["", "["], ["", "]", "0", "1"])
    yield "strings", enum(chk, "strings", ['"', "\\", "u", "D83D", "dE00", "0041", "00", "n", "b", "\x1f", "\x7f", "\u00e9", "\U0001F600", "\\u", "/", "g"], 4 if q else 5, ['"', '{"', '"\\uD83D'], ["", '"', '":1}', "\\uDE00\""])
    yield "hex", enum(chk, "hex", list("019afAFgGdDcCbB8`@/:") , 4, ['"\\u'] if q else ['"\\u', '"\\uDBFF\\u'], ['"'])
    yield "comments", enum(chk, "comments", ["/", "*", "\n", "\r", "1", "\x00", " ", "[", "]", "//", "/*", "*/"], 5 if q else 6, ["", "[1"], ["", "\n]", "*/ 2"])
    yield "literals", enum(chk, "literals", list("truefalsn") + ["\u0172", "\u0174", " ", ",", "]", "T", "N"], 6, ["", "[", "t", "f", "n"], ["", "]"])
    yield "nul", enum(chk, "nul", ["\x00", "1", "[", "]", '"', " ", "//", "\n", "a", "-", "5.5"], 5 if q else 6)
    allc = [chr(c) for c in range(0x180)] + [chr(c) for c in (0x2028, 0x2215, 0xFEFF, 0x155B, 0x125B, 0x222, 0x230, 0x22C, 0x23A, 0x65E, 0x1F600, 0x1005B, 0x1007B, 0x10030, 0x3000, 0xA0, 0x85)]
    # what a character of the grammar becomes when its upper bits are lost
    allc += [chr(0x10000 + ord(c)) for c in '\0\t\n\r "*+,-./0159:AEFGabefglnrstu[\\]{}' if chr(0x10000 + ord(c)) not in allc]
    ms = MODES if not q else MODES
    yield "modes", enum(chk, "modes", allc, 1, ms, SUFF if not q else SUFF[:8] + SUFF[9:10])

def docs(chk, n):
    r = chk.rng
    out = []
    while len(out) < n:
        d = rdoc(r, r.choice([2, 3, 4, 5]))
        if len(d) > 700: continue
        out.append(d)
        for _ in range(2): out.append(mutate(r, d))
        if len(d) < 60 and r.random() < 0.15:
            out += [d[:i] for i in range(len(d))]
    # long tokens and deep nesting: limits must not change the outcome
    for k in (15, 16, 17, 31, 63, 64, 255, 256, 257, 1000, 4095, 4096):
        out += ['"' + "x" * k + '"', '["' + "\u00e9" * k + '\\n"]', " " * k + "1", "/" + "/" * k + "\n[1]", "/*" + "*" * k + "/7", '{"' + "k" * k + '":0}', "1." + "0" * k]
    for k in (50, 75):
        out += ["[" * k + "]" * k, '{"a":' * k + "1" + "}" * k, "[" * k + "]" * (k - 1), "[" * k + "]" * (k + 1), "[" + "1," * k + "]"]
    out += ["//" + "\n//" * 3000 + "\n1", "/**/" * 3000 + "1", "[" + "/**/1,//\n" * 300 + "]"]
    return [d for d in out]

def same(exp, obs):
    if exp == ["reject"]: return obs == {"x": "deser"}
    return "v" in obs and agree(exp, obs["v"])

def sane(v):
    """literals whose rounding at the edge of the float range is not specified"""
    if v[0] == "d": return v[1][0] == 0 or -300 < v[1][1] < 308
    if v[0] == "a": return all(map(sane, v[1]))
    if v[0] == "o": return all(sane(m[1]) for m in v[1])
    return True

def run(chk):
    big = bulk.start(chk, {"read": "some", "odd": 1}, [bulk.O(0), bulk.O(3)])
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_text", "h_text.cpp", SAN))
        cases = list(corpus(chk))
        exe = fut.result()["h_text"]
    n = 0
    for name, texts in cases:
        cs = []
        for t, exp in texts:
            n += 1
            cs.append((f"pnn {PRIORS[n % len(PRIORS)]} {cps(t)}", exp, txt(t)))
        judge(chk, name, exe, cs, same)
    # direction B: random documents and mutations of them, recorded and then validated against the specification
    ds = docs(chk, 2500 if chk.quick else 40000)
    lines = [f"pnn {PRIORS[i % len(PRIORS)]} {cps(cp(nosurr(d)))}" for i, d in enumerate(ds)]
    record(chk, "documents", exe, lines, lambda i, o: dict(t=cp(nosurr(ds[i])), **o), "Trace_Reader",
           dict(NumCfg="<- Cfg64"), lambda i: ds[i], corrupt)
    deep(chk, exe)
    big()

def deep(chk, exe):
    """hundreds of open brackets: no limit on nesting; left open, closed once too often or crosswise it is an error"""
    r = chk.rng
    ev, lines = [], []
    for n, w in enumerate(wr.deep_cases(r, chk.quick)):
        t = wr.wrapped_text(["7", "[]", '{"b":""}', ""][n % 4] if n % 4 < 3 or w[-1] not in (1, 2, 3) else "null", w)
        for x in [t, t[:-1], t + t[-1], t[:-3] + {"]": "}", "}": "]"}[t[-3:][0]] + t[-2:] if t[-3] in "]}" else t + " ", " \n".join(t) if len(t) < 800 and "null" not in t else t + "//"]:
            ev.append(dict(t=cp(x), w=w)); lines.append(f"p{'nw'[n % 2]}{'nw'[n // 2 % 2]} {PRIORS[n % len(PRIORS)]} {cps(cp(x))}")
    record(chk, "deep", exe, lines, lambda i, o: dict(ev[i], **wr.peeled(o, ev[i]["w"])), "Trace_Reader", dict(NumCfg="<- Cfg64"), lambda i: txt(ev[i]["t"])[:200],
           lambda e: [dict(e, t=e["t"] + [93])] if "v" in e else [{"t": e["t"], "w": e["w"], "v": ["n"]}])

def corrupt(e):
    """alterations of a recorded event that the specification must reject"""
    if "v" in e:
        yield dict(t=e["t"], x="deser")
        yield dict(t=e["t"], v=["a", [e["v"]]])
        yield dict(t=e["t"] + [125], v=e["v"]) if e["t"][-1:] not in ([10], [13]) and 0 not in e["t"] and 47 not in e["t"] else None
    else:
        yield dict(t=e["t"], v=["n"]) if "null" not in txt(e["t"]) else None
        yield dict(t=e["t"], x="type")

TECHNIQUE = "TLA+ pushdown-machine specification of the reader; TLC enumerates live prefixes with verdicts, replayed into the code; recorded documents validated by TLC"
NOTE = ("Every text over nine symbol alphabets up to 4-7 symbols (live prefixes and first dead extension, several endings) gets verdict and value from "
        "the specification and is executed; random documents and mutations are recorded and validated; documents of up to 65,537 elements, keys, digits and characters (MC_Bulk). Trusts TLC, the harness projection of values, and a float tolerance of 2e-15.")
