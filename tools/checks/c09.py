"""C09: typed access succeeds exactly when the type matches."""
from lib import *
from gen import *

TECHNIQUE = "TLA+ table of typed reads (value x form x type -> outcome, value and variable afterwards) with laws checked by TLC; the full cross product replayed into the code; recorded random reads validated by TLC"
NOTE = ("Every access form (by value, implicit, const and mutable references and pointers, get_ptr, into a variable, writes through references and pointers) x every type (13 arithmetic types, string, a class made from a string, array, object, value) x values of every kind x prior contents, "
        "for narrow and wide values; recorded random reads are accepted by TLC.")
ASSUMPTIONS = ["reads into narrower arithmetic types are made with values they can hold"]

FORMS = ["get", "imp", "try", "ref", "cref", "nref", "wref", "ptr", "cptr", "gptr", "gcptr", "nptr", "tptr", "wptr"]
PLAIN = ["get", "imp", "try"]
PRI = {"b": [["b", 1], ["b", 0]], "i": [["i", [1, 7]], ["i", [0, 0]]], "d": [["d", [1, 0, 2, 5]], ["d", [0, 0]]], "s": [["s", []], ["s", [97, 233]]], "a": [["a", []], ["a", [["n"], ["s", [98]]]]],
       "o": [["o", []], ["o", [[[97], ["i", [1, 1]]]]]]}
VALS = [["n"], ["b", 0], ["b", 1], ["i", [0, 0]], ["i", [1, 1]], ["i", [-1, 1, 2, 8]], ["i", [1, 1, 2, 7]], ["d", [0, 0]], ["d", [1, 0, 1]], ["d", [-1, 0, 2, 5]], ["s", []], ["s", [116, 114, 117, 101]], ["s", [120] * 40], ["s", [0, 0x1F600]],
        ["a", []], ["a", [["i", [1, 1]]]], ["a", [["a", [["n"]]], ["o", []]]], ["o", []], ["o", [[[97], ["n"]]]], ["o", [[[], ["o", [[[98], ["s", [99]]]]]], [[97], ["b", 1]]]]]

def ctypes(v, f, k, x):
    if f not in PLAIN: return [0]
    if k == "s": return [0, 1]
    if k == "i":
        ns = [dec_int(y[1]) for y in (v, x) if y[0] == "i"]
        r = [0]
        for c, lo, hi in ((1, -2**31, 2**31 - 1), (2, -2**15, 2**15 - 1), (3, -128, 127), (4, -2**63, 2**63 - 1), (5, 0, 2**32 - 1), (6, 0, 2**64 - 1), (7, 0, 255)):
            if all(lo <= n <= hi for n in ns): r.append(c)
        return r
    if k == "d":
        import struct
        fs = [dec_flt(y[1]) for y in (v, x) if y[0] == "d"]
        ok = all(abs(n) < 1e38 and struct.unpack("f", struct.pack("f", n))[0] == n for n in fs)
        return [0, 2, 3] + ([1] if ok else [])
    return [0]
def same(exp, obs): return [obs["r"], obs["w"]] == exp

def run(chk):
    q = chk.quick
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_access", "h_access.cpp", SAN), ("h_access_w", "h_access.cpp", SAN + ["-DVARIANT=1"]))
        d = "VS == {" + ", ".join(tla(v) for v in VALS) + "}\nPS == {" + ", ".join(tla(p) for k in PRI for p in PRI[k]) + "}\n"
        r = run_tlc(chk, "table", "MC_Access", defs=d, constants=dict(Vals="<- VS", Priors="<- PS"), emit=True)
        ts = list(tlc_json(r.lines))
        exes = fut.result()
    for hn, exe in exes.items():
        cases = []
        for (v, f, k, x), exp in ts:
            for c in ctypes(v, f, k, x): cases.append((f"{f} {k} {c} {polish(v)} {polish(x)}", exp, str((f, k, c, v, x))))
        judge(chk, "table" + hn[8:], exe, cases, same)
        rr = chk.rng
        ev, lines = [], []
        for i in range(6000 if q else 60000):
            v = rvalue(rr, 2)
            k = v[0] if v[0] != "n" and rr.random() < .6 else rr.choice("bidsao")
            f = rr.choice(FORMS)
            x = rr.choice(PRI[k])
            if rr.random() < .1: k, f, x = "v", rr.choice(PLAIN), rvalue(rr, 1)
            c = rr.choice(ctypes(v, f, k, x))
            ev.append(dict(v=obsform(v), f=f, k=k, x=obsform(x))); lines.append(f"{f} {k} {c} {polish(v)} {polish(x)}")
        record(chk, "random" + hn[8:], exe, lines, lambda i, o: dict(ev[i], **o), "Trace_Access", {}, lambda i: ev[i], corrupt)

def corrupt(e):
    yield dict(e, w=["a", [["b", 1], e["w"]]])
    yield dict(e, r=["v", ["s", [1]]] if e["r"][0] != "v" else ["null"])
