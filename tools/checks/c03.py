"""C03: every input source and encoding of a document parses alike."""
from lib import *
from gen import *
from checks import bulk
import checks.convert as cv

TECHNIQUE = "TLA+ model of a source (remaining characters, position, typed and untyped target variables) over the reader machine and the conversion rules: TLC explores all operation sequences; every history replayed over all source kinds, encodings and value widths; recorded random histories validated by TLC"
NOTE = ("All sequences of 3 operations (parse into a variable, parse returning, extraction into a value and into seven native types, skipping, peeking, clearing, draining) over 26 texts with NUL-separated documents and undecodable characters; each replayed over a sample of the 260 combinations of "
        "source kind (string, C string, FILE with odd read sizes, string stream, chunked buffer, four adapters), unit type and encoding (UTF-8, UTF-16 in char16_t and wchar_t, UTF-32 in char32_t and wchar_t; the default, a named one, or one of the user's that reads blocks, after peeking or without) and value width (narrow, wide, wide holding UTF-16); random document histories are validated against the specification; large documents of every unit width.")
ASSUMPTIONS = ["after a failed read the position of a stream is unspecified", "U+FFFF of char16_t sources excluded (see KNOWN_FINDINGS C05)"]

I, B, S = cv.I, cv.B, cv.S
TYPES = [(I, ["i", [1, 7, 7]]), (S, ["s", cp("old")]), (cv.seq(I), ["a", [["i", [1, 1]], ["i", [1, 2]]]]), (cv.mp(cv.seq(I)), ["o", [[cp("z"), ["a", [["i", [1, 9]]]]]]]),
         (cv.rec(("a", 1, I), ("b", 0, S)), ["r", [["i", [1, 5]], ["s", cp("old")]]]), (cv.arr(2, I), ["a", [["i", [1, 3]], ["i", [1, 4]]]]), (B, ["b", 1])]

# (text, type): NUL separates documents, \uFFFE-like BAD is written as \udc80
PAIRS = [("1\x00[1,2]\x00\"x\"", 1), ("1\x00\x00 2", 1), ("[1,2]\x00[3", 3), ("[5,true]\x00[6]", 3), ("\"\u00e9\U0001F600\"\x00\"b\\u00e9\\ud83d\\ude00\" ", 2), ("[1,\udc80]", 3), ("1\x00\udc80", 1),
         ("\x001", 1), (" \x0b7\x00 \n8", 1), ("{\"a\":1,\"b\":\"q\"}\x00{\"a\":2}", 5), ("{\"b\":\"n\"}\x00{\"a\":3,\"c\":[]}", 5), ("true\x00 false\x00", 7), ("//c\n\"a\\\\\"\x00/*x*/ \"\u20ac\"", 2), ("", 1), ("  \t", 2), ("null\x00null", 3),
         ("{\"k\":[1],\"k\":[2],\"\u00df\":[]}\x00{}", 4), ("[7]\x00[8,9,10]", 6), ("{\"a\":[1],\"b\":2}\x00[]", 4), ("12x", 1), ("1 1", 1), ("tru\x00true", 7), ("5//\x006", 1), ("\"a\udc80\"", 2), ("-0.5e+2\x00 1", 1), ("[[],{\"q\":null}]\x0055", 1),
         ("[1]\udc80", 3), ("[1]\udc80 x", 3), ("1\udc80\x00 2", 1), ("{\"a\":4}\x00{}\udc80", 5), ("\udc80[1]", 3), ("[1]//\udc80\n", 3)]

def cps_bad(s): return [-1 if c == "\udc80" else ord(c) for c in s]
OPS = [["g", 1], ["g", 3], ["pk"], ["pa"], ["pr"], ["ex"], ["et"], ["ns"], ["cl"], ["rs"]]
SRC = {"text": "sc", "stream": "fipAB", "endless": "ab"}
V0 = ["a", [["i", [1, 7]]]]

def configs(kind, ops, text):
    r = []
    ext = any(o[0] in ("ex", "et") for o in ops)
    for src in SRC[kind]:
        for u in "1w24v":
            if src == "f" and (u not in "1w" or ext or u == "w" and -1 in text): continue
            if ext and u not in "1w": continue
            for exe in "nw":
                for t in "dexun":
                    if t == "d" and u == "v" or t == "x" and exe == "n" or ext and t != "d" or t in "un" and u == "v" and exe == "n": continue
                    if t == "n" and src in "AB": continue  # a block of units cannot tell the end
                    r.append((exe, u, src, t))
    return r

def line(c, ty, v0, text, ops):
    return f"{c[1]}{c[2]} {c[3]} {ty} {polish(v0)} {cps(text)} {len(ops)} " + " ".join(" ".join(map(str, o)) for o in ops)

def same(e, o):
    ty, h = e
    if len(h) != len(o["h"]): return False
    for (res, v, t), (ores, ov, ot) in zip(h, o["h"]):
        if res != ores or not (v == ["any"] or agree(v, ov)) or not cv.nsame(TYPES[ty - 1][0], t, ot): return False
    return True

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"read": "all"}, units="1w24", shapes=bulk.SHAPES if not chk.quick else [["S", 97], ["S", 233], ["S", 128512], ["K", 8364], ["A", ["i", [1, 7]]], ["M", 0]])
    r = chk.rng
    TY = "TY == <<" + ", ".join(f"<<{tla(t)}, {tla(p)}>>" for t, p in TYPES) + ">>\n"
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, *[(f"h_{x}{p}", "h_sources.cpp", SAN + [f"-DPART={p}"] + (["-DVARIANT=1"] if x == "w" else [])) for x in "nw" for p in (0, 1)])
        ts = []
        d = TY + "PR == {" + ", ".join(f"<<{tla(cps_bad(t))}, {k}>>" for t, k in PAIRS) + "}\nOP == {" + ", ".join(tla(o) for o in OPS) + "}\nKD == {\"text\", \"stream\", \"endless\"}\n"
        m = run_tlc(chk, "histories", "MC_Sources", defs=d, constants={"Types": "<- TY", "Pairs": "<- PR", "Ops": "<- OP", "Kinds": "<- KD", "Depth": 3 if q else 4, "NumCfg": "<- Cfg64"},
                    invariants=["IsTail", "NulEnds", "Emit"], properties=["Keeps", "Local"], emit=True, heap="8g")
        if m.violated: raise CheckError(m.violated)
        exes = fut.result()
    def exe_of(c): return f"h_{c[0]}{0 if c[1] in '1w' else 1}"
    cases = {n: [] for n in exes}
    n = 0
    for kind, text, ty, hist in tlc_json(m.lines):
        ops = [h[0] for h in hist]
        exp = (ty, [h[1] for h in hist])
        cs = configs(kind, ops, text)
        for j in range(len(cs) if kind == "text" or len(ops) < 2 else 4 if q else 12):
            n += 1
            c = cs[(n * 7 + j) % len(cs)] if kind != "text" else cs[j]
            cases[exe_of(c)].append((line(c, ty, V0, text, ops), exp, f"{c} {text} {ops}"))
    for nm, exe in exes.items(): judge(chk, "histories-" + nm[2:], exe, cases[nm], same)
    # random documents
    ev, lines = {n: [] for n in exes}, {n: [] for n in exes}
    for i in range(6000 if q else 60000):
        kind = r.choice(["text", "stream", "stream", "endless"])
        ty = r.randrange(1, 8)
        parts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .4:
                x = json_text(r, cv.to(TYPES[ty - 1][0], cv.rnat(r, TYPES[ty - 1][0])))
            else:
                x = rdoc(r, r.choice([0, 1, 2, 3]))
                while len(x) > 200: x = rdoc(r, 1)
            if r.random() < .3: x = mutate(r, x)
            parts.append(x)
        s = nosurr("\x00".join(parts)).replace("\uffff", "")
        text = cp(s)
        if r.random() < .1: text.insert(r.randrange(len(text) + 1), -1)
        if kind == "text": ops = [[r.choice(["pa", "pr"])] for _ in range(2)]
        else:
            typed = r.random() < .5
            ops = [r.choice([["g", r.randrange(1, 4)], ["pk"], ["pa"], ["pr"], ["pa"], ["pr"]] + ([["ex"], ["et"], ["et"], ["ns"], ["cl"]] if typed else [])) if r.random() < .9 or kind == "endless" else ["rs"] for _ in range(r.randrange(1, 7))]
        cs = configs(kind, ops, text)
        c = r.choice(cs)
        v0 = obsform(rvalue(r, 1, floats=False))
        nm = exe_of(c)
        ev[nm].append(dict(kind=kind, s=text, ty=ty, v0=v0, ops=ops)); lines[nm].append(line(c, ty, v0, text, ops))
    for nm, exe in exes.items():
        record(chk, "random-" + nm[2:], exe, lines[nm], lambda i, o: dict(ev[nm][i], **o), "Trace_Sources", {"NumCfg": "<- Cfg64", "Types": "<- TY"}, lambda i: str(ev[nm][i]), corrupt, defs=TY)
    big()

def json_text(r, v):
    k = v[0]
    w = lambda: dws(r)
    if k == "n": x = "null"
    elif k == "b": x = "true" if v[1] else "false"
    elif k == "i": x = str(dec_int(v[1]))
    elif k == "s": x = json.dumps(txt(v[1]), ensure_ascii=r.random() < .5)
    elif k == "a": x = "[" + ",".join(json_text(r, y) for y in v[1]) + "]"
    elif k == "o": x = "{" + ",".join(json.dumps(txt(n), ensure_ascii=r.random() < .5) + w() + ":" + json_text(r, y) for n, y in v[1]) + "}"
    else: x = "0.5"
    return w() + x + w()

def corrupt(e):
    h = [list(x) for x in e["h"]]
    if not h or h[0][0][0] not in ("v",): return
    h[0] = [["x", "deser"]] + h[0][1:]
    yield dict(e, h=h)
    if e["ops"][0][0] != "et": yield dict(e, h=[[e["h"][0][0], ["a", [e["h"][0][1]]], e["h"][0][2]]] + e["h"][1:])
