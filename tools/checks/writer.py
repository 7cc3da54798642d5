"""What C01, C04 and C18 share: models of the writer."""
from lib import *
from gen import *

def O(step=0, ch=32, esc=0, prec=6, fmt=0):
    return dict(step=step, ch=ch, esc=esc, prec=prec, fmt=fmt)

def opts_tla(os): return "{" + ", ".join(sorted({tla(o) for o in os})) + "}"

def vals_tla(vs): return "{" + ", ".join(sorted({tla(v) for v in vs})) + "}"

STRUCT = r"""
Keys2 == {<<>>, <<97>>, <<98>>}
Arr(L, n) == {VArr(s) : s \in UNION {[1..i -> L] : i \in 0..n}}
Obj1(L) == {VObj(<<<<k, x>>>>) : k \in Keys2, x \in L}
Obj2(L) == {VObj(<<<<p[1], x>>, <<p[2], y>>>>) : p \in {q \in Keys2 \X Keys2 : SeqLess(q[1], q[2])}, x \in L, y \in L}
Grow(L) == Arr(L, 2) \cup {VObj(<<>>)} \cup Obj1(L) \cup Obj2(L)
"""

def structures(leaves, small, level=1):
    """definitions of a set V of values: everything of depth 2 over `leaves'; level 1: also of depth 3 over `small'
    and chains of depth 4; level 2: also pairs of those"""
    d = STRUCT + f"L0 == {vals_tla(leaves)}\nS0 == {vals_tla(small)}\n"
    d += "S1 == S0 \\cup Grow(S0)\nT0 == {VNull, VArr(<<>>), VObj(<<>>)}\nT1 == T0 \\cup Arr(T0, 1) \\cup Obj1(T0)\nT2 == T1 \\cup Arr(T1, 1) \\cup Obj1(T1)\n"
    d += "V == L0 \\cup Grow(L0) \\cup T2"
    if level > 0: d += " \\cup Arr(S1, 2) \\cup Obj1(S1) \\cup Arr(T2, 1) \\cup Obj1(T2)"
    if level > 1: d += " \\cup Grow(T2) \\cup Grow(S1)"
    return d + "\n"

def model(chk, name, defs, opts, readable="TRUE", tol=None):
    r = run_tlc(chk, name, "MC_Writer", defs=defs + f"Op == {opts_tla(opts)}\nRd(op) == {readable}\n",
                constants=dict(Values="<- V", Options="<- Op", Readable="<- Rd", NumCfg="<- Cfg64"),
                invariants=["MachineIsLayout", "RoundTrip", "Stable", "Ascii", "Emit"], emit=True)
    if r.violated: raise CheckError("specification: " + r.violated + " see " + r.out)
    return list(tlc_json(r.lines))

def line(kind, vt, o, v, explicit=True, w=()):
    """o = [step, ch, esc, prec, fmt]; the default float options may be left out; w: layers around v"""
    p = o[3] if explicit or o[3:] != [6, 0] else -1
    return f"{kind}{vt} {o[0]} {o[1]} {o[2]} {p} {o[4]} {polish_wrapped(v, w)}"

def deep(chk, exe, kind, q):
    """values inside hundreds of layers (no limit on nesting), recorded and validated"""
    r = chk.rng
    ev, lines = [], []
    for n, w in enumerate(deep_cases(r, q)):
        for step in (0, 1, 3) if q else (0, 1, 2, 4, 8):
            if step * len(w) > 800: step = 1
            v = [["i", [1, 7]], ["a", []], ["o", []], ["s", [34, 10]], ["d", [1, 0, 1, 5]]][(n + step) % 5]
            o = [step, 32, n % 2, 6, 0]
            ev.append(dict(k=kind, v=v, o=o, w=w)); lines.append(line(kind, VT[n % 4], o, v, n % 2 == 0, w))
    def event(i, o):
        if kind == "r": o = peeled(o, ev[i]["w"])
        return dict(ev[i], **({"b": o["v"]} if "v" in o else o))
    def corrupt(e):
        if kind == "r": yield dict(e, b=["n"])
        else: yield dict(e, w=e["w"] + [0])
    record(chk, "deep", exe, lines, event, "Trace_Writer", dict(NumCfg="<- Cfg64"), lambda i: f"{ev[i]['v']} inside {len(ev[i]['w'])} layers, options {ev[i]['o']}", corrupt)

def same_text(exp, obs):
    if exp[0] == "fail": return obs == {"x": "ser"}
    return obs == {"t": exp[1]}

def same_back(exp, obs): return "b" not in obs and "v" in obs and agree(exp, obs["v"])

def rand_opts(r, floats=True):
    step = r.choice([0, 0, 1, 2, 3, 4, 8, 255])
    return [step, r.choice([32, 32, 9]), r.randrange(2)] + (r.choice([[6, 0], [6, 0], [r.randrange(0, 20), r.randrange(4)], [17, 0], [17, 2]]) if floats else [6, 0])

VT = ["nn", "nw", "wn", "ww"]

# values inside many layers (Wrapped in JsonValue.tla)
LAYER = [lambda x: ["a", [x]], lambda x: ["o", [[[97], x]]], lambda x: ["a", [["n"], x]], lambda x: ["a", [x, ["n"]]]]
LAYER_TEXT = [("[", "]"), ('{"a":', "}"), ("[null,", "]"), ("[", ",null]")]

def wrapped(v, w):
    for t in reversed(w): v = LAYER[t](v)
    return v

def wrapped_text(s, w): return "".join(LAYER_TEXT[t][0] for t in w) + s + "".join(LAYER_TEXT[t][1] for t in reversed(w))

def polish_wrapped(v, w): return "".join(["a 1 ", "o 1 1 97 ", "a 2 n ", "a 2 "][t] for t in w) + polish(v) + "".join(" n" for t in w if t == 3)

def peel(v, w):
    """the value inside the layers w of v, None if v has other layers"""
    for t in w:
        if v[0] != "ao"[t == 1]: return None
        if t == 1:
            if len(v[1]) != 1 or v[1][0][0] != [97]: return None
            v = v[1][0][1]
        else:
            if len(v[1]) != (1 if t == 0 else 2): return None
            x = v[1][1 if t == 2 else 0]
            if t == 2 and v[1][0] != ["n"] or t == 3 and v[1][1] != ["n"]: return None
            v = x
    return v

def peeled(o, w):
    """an observation {v: value} with the layers removed"""
    if "v" not in o: return o
    b = peel(o["v"], w)
    return {"x": "mangled"} if b is None else {"v": b}

DEEP = [127, 128, 129, 254, 255, 256, 257, 300, 511, 520]
def deep_cases(r, q):
    for k in DEEP + ([] if q else [1023, 1024, 1025, 2000]):
        for w in ([0] * k, [1] * k, [r.randrange(4) for _ in range(k)], [2, 1] * (k // 2)):
            yield w
