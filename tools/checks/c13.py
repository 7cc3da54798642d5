"""C13: error handlers receive every failure exactly once."""
from lib import *
from gen import *

TECHNIQUE = "TLA+ state machine of the error handlers (what each holds after every call) over the reader and writer specifications; TLC explores all call histories, replayed into the code; recorded random histories validated by TLC"
NOTE = ("Every sequence of 2 calls (thorough 3) over calls that fail at every prefix and with an unreadable character at every position of a document, at every capacity of a sink, in unwritable values and in the user's own encoding, with 12 option lists (none, null, strict, ignore, two record handlers, counting, rethrowing, "
        "throwing and re-entrant handlers, two handlers in one call); narrow and wide, all sources and sinks. The message of an exception is not modelled but must be the one that the same call raises without a handler.")
ASSUMPTIONS = ["results of calls whose failure a handler swallowed are unspecified", "record handlers are given the library's exceptions only"]

DOC = '{"a":[1,-2.5e1,"x\\u00e9"],"":{"b":null}} //c'
def bad(s): return [-1 if c == "\udc80" else ord(c) for c in s]
LISTS = [[], ["N"], ["S"], ["I"], ["R1"], ["R2"], ["C"], ["G"], ["O"], ["X"], ["R1", "C"], ["I", "N"]]
BADV = [["s", [0xD800]], ["d", [9, 0]], ["o", [[cp("k"), ["a", [["i", [1, 1]], ["d", [8, 0]]]]]]], ["o", [[[0xDC00], ["n"]]]]]
GOOD = ["o", [[cp("a"), ["a", [["i", [1, 1]], ["s", cp("x\n")], ["b", 1]]]], [cp("b"), ["n"]]]]
FORE = ["a", [["s", cp("a")], ["o", [[cp("k"), ["s", [0x61, 0xE000]]]]]]]

def form(r, c):
    """a concrete call: kind, and whether the value is wide only"""
    if c[0] == "p": return "p" + r.choice("ar") + r.choice("ti" if -1 in c[1] else "scii" if 0 not in c[1] else "si")
    return "d" + (r.choice("ot") if c[3] >= 0 else r.choice("rso"))

def call_text(r, c, hs, unit, kind=None):
    pk = 0 if not c[-1] else c[-1] * 10 + r.choice([1, 2])
    head = f"{kind or form(r, c)} {unit} {pk} {len(hs)} {' '.join(hs)} ".replace("  ", " ")
    return head + (cps([x for x in c[1]]) if c[0] == "p" else f"{c[2]} {c[3]} {polish(c[1])}")

def surr(v):
    if v[0] == "s": return any(0xD800 <= x < 0xE000 for x in v[1])
    if v[0] == "a": return any(map(surr, v[1]))
    if v[0] == "o": return any(surr(["s", k]) or surr(x) for k, x in v[1])
    return False

def msg(o, i): return [] if i == 0 else o["nest"] if i == -1 else o["h"][i - 1][0][2] if len(o["h"][i - 1][0]) == 3 else None
def same(e, o):
    if len(e) != len(o["h"]) or not o["nest"]: return False
    for i, (k, hs, cls, res, st) in enumerate(e):
        pr, ob, oh = o["h"][i]
        if cls == "":
            if pr[0] != res[0] or not (agree(res[1], pr[1]) if res[0] == "v" else res == pr): return False
        elif pr[0] != "x" or pr[1] != cls: return False
        if res[0] in "vt":
            if ob[0] != res[0] or not (agree(res[1], ob[1]) if res[0] == "v" else res == ob): return False
        elif res[0] == "s":
            if ob[0] not in "vt": return False
        elif res[0] == "own":
            if ob != ["own"]: return False
        elif ob[0] != "x" or ob[1] != res[1] or ob[2] != msg(o, res[2]): return False
        if oh != [msg(o, st[0]), msg(o, st[1]), st[2], msg(o, st[3]), st[4], msg(o, st[5]), st[6], st[7]]: return False
    return True

def run(chk):
    q = chk.quick
    r = chk.rng
    d = cp(DOC)
    small = [["p", cp("[1"), 0], ["p", cp(' {"a":1}'), 0], ["d", GOOD, 0, -1, 0], ["d", BADV[2], 2, -1, 0]]
    once = [["p", d[:i], 0] for i in range(len(d) + 1)] + [["p", d[:i] + [-1] + d[i:], 0] for i in range(len(d) + 1)] + [["p", d[:i] + [x] + d[i + 1:], 0] for i in range(len(d)) for x in (0, 7, 93, 125)]
    once += [["d", GOOD, s, k, 0] for s in (0, 2) for k in list(range(-1, 40 if s == 0 else 60))] + [["d", v, s, k, 0] for v in BADV for s in (0, 1) for k in (-1, 3, 100)]
    once += [["p", bad('"a\ue000"'), 1], ["p", bad("[\ue000"), 1], ["p", bad('1 \x00\ue000'), 1], ["p", bad('"a\ue000"'), 0], ["p", bad(' // \ue000'), 1], ["d", FORE, 0, -1, 1], ["d", FORE, 2, -1, 0]]
    once += [[*c[:-1], k] for c in once if c[-1] for k in (2, 3)]
    pairs = [["p", d[:i], 0] for i in (0, 2, 11, 20, len(d))] + [["p", bad("[1,\udc80"), 0], ["p", cp("tru"), 0], ["p", cp("1 1"), 0], ["p", bad('"a\ue000"'), 1], ["d", FORE, 0, -1, 1],
             ["p", bad('["a\ue000"'), 2], ["d", FORE, 2, -1, 3], ["d", GOOD, 0, 5, 0], ["d", GOOD, 0, -1, 0], ["d", BADV[0], 0, -1, 0], ["d", BADV[2], 1, -1, 0]]
    models = [("single", once, LISTS, 1), ("pairs", pairs, LISTS, 2), ("triples", small, [[], ["I"], ["R1"], ["R2"], ["C"], ["X"], ["G"]] if q else LISTS, 3)] + ([] if q else [("longer", small, [["I"], ["R1"], ["C"], ["X"]], 4)])
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_n", "h_errors.cpp", SAN), ("h_w", "h_errors.cpp", SAN + ["-DVARIANT=1"]))
        ts = []
        for nm, calls, lists, depth in models:
            calls = [c for c in calls if c[0] == "d" or len(c[1]) < 1000]
            m = run_tlc(chk, nm, "MC_Handlers", defs=f"CL == {tla(calls)}\nLS == {{{', '.join(tla(x) for x in lists)}}}\n", constants={"Calls": "<- CL", "Lists": "<- LS", "Depth": depth, "NumCfg": "<- Cfg64"},
                        invariants=["Emit"],
                        properties=["Untouched", "Once", "Silent", "Library"], emit=True)
            if m.violated: raise CheckError(m.violated)
            ts.append((nm, calls, list(tlc_json(m.lines))))
        exes = fut.result()
    for nm, calls, hists in ts:
        cases = {"h_n": [], "h_w": []}
        for j, h in enumerate(hists):
            for x in ("h_n", "h_w") if nm == "single" else (["h_n", "h_w"][j % 2],):
                cs = [calls[k - 1] for k, *_ in h]
                unit = "w" if any(c[0] == "d" and surr(c[1]) for c in cs) else r.choice("1w")
                cases[x].append((f"{len(h)} " + " ".join(call_text(r, c, hs, unit) for c, (_, hs, *_) in zip(cs, h)), h, str([(c, e[1]) for c, e in zip(cs, h)])))
        for x in cases: judge(chk, f"{nm}-{x[2:]}", exes[x], cases[x], same)
    # random histories
    for x, exe in exes.items():
        ev, lines = [], []
        for _ in range(1200 if q else 12000):
            cs, hs = [], []
            unit = r.choice("1w")
            for _ in range(r.randrange(1, 9)):
                if r.random() < .6:
                    t = cp(nosurr(rdoc(r, r.choice([0, 1, 2])) if r.random() < .5 else mutate(r, rdoc(r, r.choice([1, 2])))).replace("\uffff", ""))[:120]
                    if r.random() < .15: t.insert(r.randrange(len(t) + 1), r.choice([-1, 0xE000]))
                    c = ["p", t, r.choice([0, 0, 1, 2, 3])]
                else:
                    v = rvalue(r, r.choice([0, 1, 2]), floats=False) if r.random() < .8 else r.choice(BADV + [FORE])
                    c = ["d", v, r.choice([0, 0, 1, 4]), -1, r.choice([0, 0, 1, 2, 3])]
                    if unit == "w" and r.random() < .4 and not c[-1]: c[3] = r.randrange(40)   # one unit per character
                cs.append(c)
                hs.append([r.choice(["N", "S", "I", "R1", "R2", "C", "G", "O", "X"]) for _ in range(r.choice([0, 1, 1, 1, 2]))])
                if c[-1] and "57344" in str(c) and hs[-1] and hs[-1][-1] in ("R1", "R2"): hs[-1].append("C")
            ev.append(dict(c=[[c[0], obsform(c[1]), *c[2:]] if c[0] == "d" else c for c in cs], hs=hs))
            lines.append(f"{len(cs)} " + " ".join(call_text(r, c, h, unit) for c, h in zip(cs, hs)))
        record(chk, "random-" + x[2:], exe, lines, lambda i, o: dict(ev[i], **o), "Trace_Handlers", {"NumCfg": "<- Cfg64"}, lambda i: str(ev[i]), corrupt)

def corrupt(e):
    h = e["h"]
    if not h: return
    yield dict(e, h=h[:-1] + [h[-1][:2] + [h[-1][2][:2] + [h[-1][2][2] + 1] + h[-1][2][3:]]])
    if h[0][1][0] != "s" and h[0][0][0] != "x": yield dict(e, h=[[h[0][0], ["x", "deser", [1]], h[0][2]]] + h[1:])
