"""C20: the encodings a caller selects are the ones applied."""
from lib import *
from gen import *
import itertools

TECHNIQUE = "TLA+ model of encoding selection (default of the JSON type, settings per side, code units of text and strings): TLC explores every selection and string with laws (writing and reading back, independence of the text's encoding, ASCII under escaping, sides independent); every case replayed on the code, recorded random cases validated by TLC"
NOTE = ("All sequences of up to two settings (read side, write side, both) over UTF-8, UTF-16, UTF-32, ignore, automatic and an encoding of the caller's own on every admissible default, for values in char and wchar_t and texts in char, wchar_t, char16_t and char32_t, each with discriminating strings; every pair of encodings with all strings of up to 2-3 symbols "
        "(well-formed, ill-formed, escapes, units too large); as string, key and comment, with and without escaping, through all forms of dump and parse and the stream wrapper.")
ASSUMPTIONS = ["an encoding that text is written with contains ASCII (structure and numbers are written as such)", "a character that the unit of an `ignore` target cannot hold, and numbers beyond U+10FFFF under escaping, are not specified"]

A8 = [[65], [34], [10], [195, 169], [226, 130, 172], [240, 159, 152, 128], [127], [169], [195], [237, 160, 189], [192, 128]]
A16 = [[65], [34], [10], [233], [0x20AC], [0xD83D, 0xDE00], [0xD83D], [0xDE00], [0xFFFD]]
A32 = [[65], [34], [10], [233], [0x20AC], [0x1F600], [0xD83D], [0x110000], [0x7F]]
A0 = [[65], [34], [10], [0x7F], [0x80], [233], [255], [31]]
A1 = [[66], [35], [11], [234], [0x80], [0], [1], [255]]
WIDE = {1: [[0x20AD], [0x1F601], [0xD83E], [0x141]], 8: [[0x141], [0xC3, 0x1A9], [0x20AC], [0x1C3, 0xA9]], 16: [[0x1F600], [0x110041], [0xD83D, 0x1DE00]], 32: [], 0: [[0x20AC], [0x1F600], [0xD83D], [0x141], [0x110000]]}
ESC = [cp("\\u00e9"), cp("\\ud83d\\ude00"), cp("\\u20ac"), cp("\\\""), cp("\\ud83d"), cp("\\n")]
OWNESC = [[u + 1 for u in x] for x in ESC or (e == 1 and (x in ([66], [234], [0x20AD], [0x1F601]) or x in OWNESC))]
def alphabet(d, e, w):
    a = {8: A8, 16: A16, 32: A32, 0: A0, 1: A1}[e] + (WIDE[e] if w > 1 else [])
    if e in (16, 0, 1) and w == 2: a = [x for x in a if max(x) < 65536]
    if d == "p" and e == 1: a = [x for x in a if x not in ([1], [11], [35])] + OWNESC
    elif d == "p": a = [x for x in a if x not in ([10], [31], [34])] + ESC
    return a
FEW = {1: [[66, 234], [35, 66], [0, 66], [66, 255]], 8: [cp("A"), [195, 169], [65, 240, 159, 152, 128, 34], [195, 65]], 16: [[233], [0xD83D, 0xDE00, 65], [0xD83D, 65]], 32: [[233, 65], [0x1F600], [0xD83D]], 0: [[65, 233], [195, 169], [255]]}

def seqs(x): return "{" + ", ".join(tla(s) for s in x) + "}"
def strs(table, name):
    d = f"{name}(d, e, w) == CASE " + " [] ".join(f"(d = \"{k[0]}\" /\\ e = {k[1]} /\\ w = {k[2]}) -> {seqs(v)}" for k, v in table.items())
    return d + " [] OTHER -> {}\n"

def model(chk, name, kinds, encs, mx, table, dirs, vws, tws, defs):
    d = strs(table, "SS") + "DF == {" + ", ".join(map(str, defs)) + "}\nEC == {" + ", ".join(map(str, encs)) + "}\n"
    r = run_tlc(chk, name, "MC_Encodings", defs=d, constants=dict(Dirs=dirs, VWs=vws, TWs=tws, Defs="<- DF", Encs="<- EC", Kinds=kinds, MaxSel=mx, Strs="<- SS", NumCfg="<- Cfg64"),
                invariants=["Back", "Same", "Plain", "Sides", "Emit"], emit=True)
    if r.violated: raise CheckError("specification: " + r.violated)
    return list(tlc_json(r.lines))

def text_of(shape, s, e):
    def pl(t): return [u + 1 for u in cp(t)] if e == 1 else cp(t)
    if shape == "s": return pl("[\"") + s + pl("\", 1]")
    if shape == "k": return pl("{\"") + s + pl("\":\"") + s + pl("\"}")
    return pl("/*") + s + pl("*/[]//") + s
def read_with(df, sel):
    for k, x in sel: df = x if k in "sb" else df
    return df

def case(d, vw, tw, df, sel, esc, shape, s, i):
    sl = " ".join(f"{k} {e}" for k, e in sel)
    if d == "d":
        return f"d {vw} {tw} {df} {len(sel)} {sl} {esc} {shape} {i % 4} {cps(s)}"
    if tw == 4 and i % 2: tw = 5
    return f"p {vw} {tw} {df} {len(sel)} {sl} {i // 2 % 6} {cps(text_of(shape, s, read_with(df, sel)))}"

def same(e, o):
    if e == ["fail"]: return o == {"x": "ser"}
    if e == ["reject"]: return o == {"x": "deser"}
    if e[0] == "t": return o == {"t": e[1]}
    return o == {"v": e}

def run(chk):
    q = chk.quick
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_encsel", "h_encsel.cpp", SAN))
        E = [-1, 0, 1, 8, 16, 32]
        few = {(d, e, w): FEW[e] for d in "dp" for e in (8, 16, 32, 0, 1) for w in (1, 2, 4) if e <= 8 * w}
        full = {}
        for d in "dp":
            for e in (8, 16, 32, 0, 1):
                for w in (1, 2, 4):
                    if e > 8 * w or d == "d" and w == 2: continue
                    a = alphabet(d, e, w)
                    n = 2 if q else 3
                    full[(d, e, w)] = [sum(t, []) for k in range(0, n + 1) for t in itertools.product(a, repeat=k)]
        parts = [("selections-dump", model(chk, "selections-dump", '{"s", "t", "b"}', E, 2, few, '{"d"}', "{1, 4}", "{1, 4}", E)),
                 ("selections-parse", model(chk, "selections-parse", '{"s", "t", "b"}', E, 2, few, '{"p"}', "{1, 4}", "{1, 2, 4}", E)),
                 ("strings-dump", model(chk, "strings-dump", '{"b", "s"}', E, 1, full, '{"d"}', "{1, 4}", "{1, 4}", [-1, 0, 1, 8] if q else E)),
                 ("strings-parse", model(chk, "strings-parse", '{"b", "s"}', E, 1, full, '{"p"}', "{1, 4}", "{1, 2, 4}", [-1, 0, 1, 8] if q else E))]
        exe = fut.result()["h_encsel"]
    r = chk.rng
    for name, cs in parts:
        if q and len(cs) > 40000: cs = r.sample(cs, 40000)
        judge(chk, name, exe, [(case(*c[:8], i), c[8], str(c[:8])) for i, c in enumerate(cs)], same)
    # random selections and strings
    ev, lines = [], []
    while len(ev) < (4000 if q else 40000):
        d = r.choice("dp"); vw = r.choice([1, 4]); tw = r.choice([1, 4] if d == "d" else [1, 2, 4])
        rw, ww = (vw, tw) if d == "d" else (tw, vw)
        df = r.choice([e for e in E if e <= 8 * min(vw, tw)])
        sel = []
        for _ in range(r.randrange(4)):
            k = r.choice("stb")
            sel.append([k, r.choice([e for e in E if (k == "t" or e <= 8 * rw) and (k == "s" or e <= 8 * ww)])])
        t = df
        for k, x in sel: t = x if k in "tb" else t
        if d == "d" and t == 1: continue
        e = read_with(df, sel)
        e = 8 * rw if e == -1 else e
        a = alphabet(d, e, rw)
        if r.random() < .6: a = [x for x in a if x in ([65], [34], [10], [195, 169], [233], [226, 130, 172], [240, 159, 152, 128], [0xD83D, 0xDE00], [0x1F600], [0x20AC]) or x in ESC or (e == 1 and (x in ([66], [234], [0x20AD], [0x1F601]) or x in OWNESC))]
        if d == "p": a = [x for x in a if x != [34 + (e == 1)]]
        s = sum((r.choice(a) for _ in range(r.randrange(0, 12))), [])
        shape = r.choice("sk" if d == "d" else "skc")
        esc = r.randrange(2) if d == "d" else 0
        ev.append(dict(d=d, vw=vw, tw=tw, df=df, sel=sel, esc=esc, shape=shape, s=s))
        lines.append(case(d, vw, tw, df, sel, esc, shape, s, r.randrange(1000)))
    def mk(i, o): return dict(ev[i], r=["t", o["t"]] if "t" in o else o["v"] if "v" in o else ["fail"] if o["x"] == "ser" else ["reject"] if o["x"] == "deser" else ["other"])
    record(chk, "random", exe, lines, mk, "Trace_Encodings", dict(NumCfg="<- Cfg64"), lambda i: ev[i], corrupt)

def corrupt(e):
    x = e["r"]
    if (max(e["s"], default=0) > 126 or 92 in e["s"]) and (e["df"] == 0 or any(k[1] == 0 for k in e["sel"])): return  # possibly unspecified
    if x[0] == "t":
        yield dict(e, r=["t", x[1] + [65]]); yield dict(e, r=["fail"]); yield dict(e, r=["t", x[1][:-1]])
    elif x[0] in ("fail", "reject"): yield dict(e, r=["a", []])
    else: yield dict(e, r=["n"])
