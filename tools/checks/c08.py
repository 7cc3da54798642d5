"""C08: iterators visit each element once, in order, both ways."""
from lib import *
from gen import *
from checks import bulk

TECHNIQUE = "TLA+ position machine of iterators: TLC applies every iterator operation in every reachable state (two values, two iterators, both directions) and checks the laws; every transition replayed through const and mutable iterators; recorded random histories validated by TLC"
NOTE = ("Every operation (begin/end/find, ++/--, offsets, difference, order, equality, reads, key, write, erase of one and of a range, walks in up to nine ways that must agree) from every state reachable in a bounded number of steps over pairs of values of every kind; "
        "iterator positions are recovered by stepping from the start; recorded random histories over random values are accepted by TLC; walks over up to 65,537 elements.")
ASSUMPTIONS = ["moves outside begin..end, reading rend() and using invalidated iterators are undefined as for std iterators and not used; key() at the end of a non-object may report either error"]

A, B = ["i", [1, 1]], ["s", [97]]
VALS = [["n"], ["b", 1], ["i", [-1, 4, 2]], ["d", [1, 0, 2, 5]], ["s", [97, 98]], ["a", []], ["o", []], ["a", [A]], ["a", [A, ["n"], B]], ["o", [[[97], A]]],
        ["o", [[[97], A], [[98], ["a", [B]]], [[99], ["n"]]]], ["a", [["a", [A]], ["o", [[[97], B]]]]]]

def op_line(op):
    n, r, a = op
    if n == "fd": return f"fd {r} {a[0]} {cps(a[1])}"
    if n in ("bg", "en", "as", "wk", "eq", "ne", "lt", "le", "gt", "ge", "df", "ee", "ad", "sb", "pl", "mi"): return f"{n} {r} {a}"
    return f"{n} {r}"
def line(c, st, ops):
    vals, regs, d = st
    return f"S {c} {d} {len(vals)} " + " ".join(polish(v) for v in vals) + f" {len(regs)} " + " ".join("%d %d" % tuple(x) for x in regs) + f" {len(ops)} " + " ".join(op_line(o) for o in ops)
def same(exp, obs):
    if len(obs["h"]) != len(exp): return False
    for o, (res, post) in zip(obs["h"], exp):
        if not (o[1] == res or res == ["x", "any"] and o[1] in (["x", "range"], ["x", "iter"])) or o[2] != post: return False
    return True

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"ops": ("fw", "rv", "dist", "eh")})
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_iter", "h_iter.cpp", SAN))
        starts = []
        for d in "fr":
            for i, v in enumerate(VALS):
                starts.append([[v, VALS[(i * 5 + 3) % len(VALS)]], [[1, 0], [1, 0]], d])
        def model(name, starts, depth, keys):
            dd = "S0 == {" + ", ".join(tla(s) for s in starts) + "}\nKS == {" + ", ".join(tla(k) for k in keys) + "}\n"
            return list(tlc_json(run_tlc(chk, name, "MC_Iterators", defs=dd, constants=dict(Starts0="<- S0", KeySet="<- KS", Depth=depth), emit=True).lines))
        ts = model("states", starts, 4 if q else 5, [[97], [98], [120]])
        exe = fut.result()["h_iter"]
    cases = []
    for pre, op, res, post in ts:
        for c in "mc":
            if c == "c" and op[0] in ("wr", "er", "ee"): continue
            cases.append((line(c, pre, [op]), [[res, post]], f"{c} {op} on {pre}"))
    if len(cases) > (120000 if q else 600000): cases = chk.rng.sample(cases, 120000 if q else 600000)
    judge(chk, "states", exe, cases, same)
    by = {}
    for t in ts: by.setdefault(json.dumps(t[0]), []).append(t)
    hs = []
    for i in range(3000 if q else 20000):
        pre = st = chk.rng.choice(starts)
        c = "mc"[i % 2]
        ops, exp = [], []
        for k in range(12):
            x = [t for t in by.get(json.dumps(pre), []) if c == "m" or t[1][0] not in ("wr", "er", "ee")]
            if not x: break
            t = chk.rng.choice(x)
            ops.append(t[1]); exp.append([t[2], t[3]]); pre = t[3]
        hs.append((line(c, st, ops), exp, str((c, st, ops))))
    judge(chk, "histories", exe, hs, same)
    r = chk.rng
    inits, lines = [], []
    for i in range(1500 if q else 10000):
        vs = [rvalue(r, r.choice([1, 2, 2]), floats=False) for _ in range(2)]
        if i % 3: vs[0] = ["a", [rvalue(r, 1, floats=False) for _ in range(r.randrange(12))]] if i % 3 == 1 else ["o", [[k, rvalue(r, 1, floats=False)] for k in sorted(set((r.choice("abcde") + r.choice(["", "x"])).encode() for _ in range(r.randrange(8))))]]
        vs = json.loads(json.dumps(vs, default=list))
        c, d = "mc"[i % 2], "fr"[i // 2 % 2]
        inits.append([vs, [[1, 0]] * 3, d])
        lines.append(f"H {c} {d} 2 " + " ".join(polish(v) for v in vs) + " 3 60 " + " ".join("%d %d %d" % (r.randrange(1000), r.randrange(1000), r.randrange(1000)) for _ in range(60)))
    record(chk, "random", exe, lines, lambda i, o: dict(init=inits[i], h=o["h"]), "Trace_Iterators", {}, lambda i: inits[i], corrupt)
    big()

def corrupt(e):
    import copy
    if e["h"]:
        f = copy.deepcopy(e); f["h"][-1][2][1][0][1] += 1; yield f
        f = copy.deepcopy(e); f["h"][0][1] = ["x", "other"]; yield f
