"""C10: comparison is coherent."""
from lib import *
from gen import *
from checks import bulk
import itertools

TECHNIQUE = "TLA+ definition of equality and order, laws (symmetry, irreflexivity, asymmetry, totality on numbers and strings, transitivity on numbers) checked by TLC on all pairs; every pair replayed through all six operators in value and scalar forms; recorded random pairs validated by TLC"
NOTE = "All pairs of about 130 (thorough 500) values of every kind, nested and mixed, for narrow and wide values, through ==, !=, <, <=, >, >= between values and between values and every scalar type in both orders, on originals, copies and moved values; recorded random and nearly equal pairs are accepted by TLC; large containers and strings that differ nowhere, at the first, a middle or the last place."
ASSUMPTIONS = ["floats are finite; whether an integer beyond 2^53 is equal to, less or greater than a float within rounding distance is not decided, only that it is exactly one of these, in every operator and form"]

def base(q):
    s = [["n"], ["b", 0], ["b", 1]]
    for i in [0, 1, -1, 2, 9, 10, 11, 127, 128, 255, -128, 1000, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**53, -2**53, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 2**53 + 1, 2**54 + 3, -2**53 - 1, 10**17 + 1]: s.append(["i", int_dec(i)])
    for f in [0.0, 1.0, -1.0, 0.5, 1.5, -0.5, 2.0, 9.5, 10.0, 127.0, 0.1, 1e300, -1e300, 1e-300, 2147483647.0, 2147483648.0, 4294967295.0, 2.0**53, 2.0**63, -2.0**63, 2.0**54 + 4, -2.0**53, 1e17, 2.0**63 * 4, -1e19, 3.0]: s.append(["d", flt_dec(f)])
    for t in ["", "a", "b", "aa", "ab", "a\x00", "\x00", "true", "null", "1", "\x7f", "\u00e9", "z" * 20, "z" * 21]: s.append(["s", cp(t)])
    small = [["n"], ["b", 1], ["i", [1, 1]], ["i", [1, 2]], ["d", [1, 0, 1]], ["d", [1, 0, 1, 5]], ["s", [97]], ["s", []]]
    a = [["a", []]] + [["a", [x]] for x in small] + [["a", [x, y]] for x in small[:6] for y in small[2:5]]
    o = [["o", []]] + [["o", [[[97], x]]] for x in small] + [["o", [[[98], x]]] for x in small[:4]] + [["o", [[[97], x], [[98], y]]] for x in small[1:5] for y in small[2:4]] + [["o", [[[], ["n"]]]], ["o", [[[97, 97], ["i", [1, 1]]]]]]
    n = [["a", [x]] for x in a[:4] + o[:4]] + [["o", [[[97], x]]] for x in a[:4] + o[:4]] + [["a", [["a", [["i", [1, 1]]]], ["i", [1, 1]]]], ["a", [["a", [["d", [1, 0, 1]]]], ["i", [1, 2]]]]]
    return s + a + o + n

def near(r, v):
    """a slightly different value"""
    k = v[0]
    if k == "i":
        i = dec_int(v[1])
        if r.random() < .4 and len(str(i)) == len(str(int(float(i)))): return ["d", flt_dec(float(i) + r.choice([0, 0, 0.5 if abs(i) < 2**50 else 0]))]
        return ["i", int_dec(max(-2**63, min(2**63 - 1, i + r.choice([-1, 0, 1]))))]
    if k == "s":
        s = list(v[1])
        if s and r.random() < .5: s[r.randrange(len(s))] = r.choice([97, 98, 0, 0x7f])
        else: s.append(97)
        return ["s", s]
    if k == "b": return ["b", 1 - v[1]]
    if k == "a":
        a = list(v[1])
        if a and r.random() < .7: i = r.randrange(len(a)); a[i] = near(r, a[i])
        elif a and r.random() < .5: a.pop()
        else: a.append(["n"])
        return ["a", a]
    if k == "o":
        m = [list(x) for x in v[1]]
        if m and r.random() < .7: i = r.randrange(len(m)); m[i][1] = near(r, m[i][1])
        elif m: m.pop(r.randrange(len(m)))
        return ["o", m]
    return v

def same(exp, obs): return obs["r"] in exp and all(s == obs["r"] for s in obs["s"]) and all(s == obs["r"] for s in obs["l"]) and obs["e"] == 3

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"cmp": 1})
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_compare", "h_compare.cpp", SAN), ("h_compare_w", "h_compare.cpp", SAN + ["-DVARIANT=1"]))
        vs = base(q)
        if not q: vs = vs + [rvalue(chk.rng, 2) for _ in range(350)]
        d = "VS == {" + ", ".join(tla(v) for v in vs) + "}\n"
        ts = list(tlc_json(run_tlc(chk, "pairs", "MC_Compare", defs=d, constants=dict(Vals="<- VS"), emit=True).lines))
        exes = fut.result()
    for hn, exe in exes.items():
        judge(chk, "pairs" + hn[9:], exe, [(f"{polish(x)} {polish(y)}", r, str((x, y))) for x, y, r in ts], same)
        r = chk.rng
        ev, lines = [], []
        for i in range(8000 if q else 60000):
            x = rvalue(r, r.choice([0, 1, 2, 3]))
            y = x if r.random() < .2 else near(r, x) if r.random() < .8 else rvalue(r, 1)
            if r.random() < .5: x, y = y, x
            if r.random() < .2: x, y = ["a", [x]], ["a", [y]]
            ev.append(dict(x=x, y=y)); lines.append(f"{polish(x)} {polish(y)}")
        record(chk, "random" + hn[9:], exe, lines, lambda i, o: dict(ev[i], r=o["r"], s=o["s"] + o["l"] + ([] if o["e"] == 3 else [[9]])), "Trace_Compare", {}, lambda i: ev[i], corrupt)
    big()

def corrupt(e):
    for i in range(6): yield dict(e, r=[1 - x if j == i else x for j, x in enumerate(e["r"])])
