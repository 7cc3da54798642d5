"""Shared by C06, C07, C19: value stores."""
from lib import *
from gen import *

def vt(v): return tla(v)
def loc(l):
    return ("%d %d " % (l[0], len(l[1])) + " ".join("i %d" % s[1] if s[0] == "i" else "k " + cps(s[1]) for s in l[1])).rstrip()
LOCOPS, LITOPS, NONE, IDXOPS = {"cp", "mv", "sw", "cc", "mc", "pb", "pm"}, {"set", "pv", "eb", "ma", "mo"}, {"nul", "sz", "em", "ty", "cl"}, {"ix", "ci", "ai", "ei", "mt", "hx", "hc", "ha"}
def op_line(op):
    n, l, a = op
    s = n + " " + loc(l)
    if n in LOCOPS: return s + " " + loc(a)
    if n in LITOPS: return s + " " + polish(a)
    if n in NONE: return s
    if n in IDXOPS: return s + " %d" % a
    return s + " " + cps(a)
def store_line(st): return "%d " % len(st) + " ".join(polish(v) for v in st)
def step_line(st, ops): return f"S {store_line(st)} {len(ops)} " + " ".join(op_line(o) for o in ops)

def model(chk, name, starts, ops, keys, idx, lits, depth, nodes, ordered=True, emit=True, timeout=850):
    d = "S0 == {" + ", ".join(tla(s) for s in starts) + "}\nOpN == {" + ", ".join(f'"{o}"' for o in ops) + "}\n"
    d += "KS == {" + ", ".join(tla(k) for k in keys) + "}\nIX == {" + ", ".join(map(str, idx)) + "}\nLI == {" + ", ".join(tla(v) for v in lits) + "}\n"
    r = run_tlc(chk, name, "MC_Store", defs=d, constants=dict(Starts0="<- S0", OpNames="<- OpN", KeySet="<- KS", Idx="<- IX", Lits="<- LI", Depth=depth, MaxNodes=nodes,
                Ordered="TRUE" if ordered else "FALSE", NumCfg="<- Cfg64") if False else dict(Starts0="<- S0", OpNames="<- OpN", KeySet="<- KS", Idx="<- IX", Lits="<- LI", Depth=depth, MaxNodes=nodes, Ordered="TRUE" if ordered else "FALSE"), emit=emit, timeout=timeout)
    return list(tlc_json(r.lines)) if emit else []

def same(exp, obs):
    return obs["leak"] == 0 and len(obs["h"]) == len(exp) and all(o[1] == e[0] and o[2] == e[1] for o, e in zip(obs["h"], exp))

def cases(trs):
    return [(step_line(pre, [op]), [[res, post]], f"{op} on {pre}") for pre, op, res, post in trs]

def random_lines(r, n, roots, ln):
    ls = []
    for _ in range(n):
        st = [rvalue(r, r.choice([1, 2, 2]), floats=False) for _ in range(roots)]
        ls.append(f"H {store_line(st)} {ln} " + " ".join("%d %d %d %d" % (r.randrange(1000), r.randrange(10000), r.randrange(1 << 20), r.randrange(1 << 20)) for _ in range(ln)))
        yield st, ls[-1]

def histories(chk, name, exe, n, roots, ln, ordered=True):
    it = list(random_lines(chk.rng, n, roots, ln))
    record(chk, name, exe, [l for _, l in it], lambda i, o: dict(init=it[i][0], h=o["h"], leak=o["leak"]), "Trace_Store",
           dict(Ordered="TRUE" if ordered else "FALSE"), lambda i: it[i][0], corrupt)

def corrupt(e):
    import copy
    if e["h"]:
        f = copy.deepcopy(e); f["h"][-1][2][0] = ["s", [1, 2, 3]]; yield f
        f = copy.deepcopy(e); f["h"][0][1] = ["x", "other"]; yield f
    yield dict(e, leak=1)

A, B = ["i", [1, 1]], ["s", [97]]
