"""C14: a failing allocation, sink or source never corrupts, leaks or goes unreported."""
from lib import *
from gen import *
from checks.store import *
from checks import convert as cv

LEVEL = "fault_enumeration"
TECHNIQUE = ("TLA+ fault models: Faults.tla refines every store operation into its allocating steps and enumerates with TLC the states a fault may leave; FaultIO.tla gives the outcome of reading from a source and writing to a sink that fail at any position; "
             "fault positions are enumerated on the real code (every allocation, every source and sink position) and the recorded outcomes are validated by TLC")
NOTE = ("Every allocation of every store operation (33 kinds, 5 starting stores, 4 literals; thorough: sequences of two operations) fails in turn: the error is reported as bad_alloc, the store is one of the states the specification allows (basic guarantee, never a half-built value), the repeated operation "
        "gives the fault-free result and nothing leaks. The same for 36 native types in both directions and all conversion forms, for random histories of 40 operations with faults in the middle (later operations go on from the state the fault left), and for parse and dump in all forms. "
        "Sources (stream buffers, adapters, block adapters, extraction) and sinks (stream buffers refusing or throwing for ever or once, partial writes, exception masks, adapters, insertion) fail at every single position of the document.")
ASSUMPTIONS = ["a failing allocation throws std::bad_alloc; a fault is transient for allocations (the next one succeeds) and transient or permanent for sources and sinks", "destructors of user types do not throw"]

ALLOPS = ["cp", "mv", "sw", "cc", "mc", "set", "nul", "mt", "ma", "mo", "ix", "ik", "iC", "ci", "ai", "ck", "ak", "cC", "aC", "sz", "em", "ty", "ct", "fd", "fc", "ek", "ei", "pv", "eb", "pb", "pm", "cl"]
LONG = ["s", [120] * 40]
LK = [107] * 30
STARTS = [[["n"], ["a", [A, ["a", [LONG]]]]], [["o", [[[97], ["a", [A]]], [LK, B]]], LONG], [["a", [["o", [[[97], B]]], ["n"]]], ["n"]],
          [["o", [[[97], ["o", [[LK, ["o", []]]]]]]], ["b", 1]], [["a", [LONG, LONG, ["a", []], ["a", [["o", [[LK, LONG]]]]]]], ["o", []]]]
LITS = [A, LONG, ["a", [["n"], LONG]], ["o", [[LK, A]]]]

STRUCK = {}
def count(o, key, n):
    """faults that really struck, counted once per case"""
    STRUCK[key] = n

def same_fault(e, o):
    count(o, ("store", str(e)), o["n"])
    (res, post), states = e[0], e[1]
    if o["leak"] != 0 or o["ok"] != [res, post]: return False
    for r, s, r2, s2 in o["f"]:
        if r == ["x", "alloc"]:
            if s not in states or [r2, s2] != [res, post]: return False
        elif [r, s] != [res, post]: return False
    return True

def store_faults(chk, exe, q):
    d = "S0 == {" + ", ".join(tla(s) for s in STARTS) + "}\nOpN == {" + ", ".join(f'"{o}"' for o in ALLOPS) + "}\n"
    d += "KS == {" + ", ".join(tla(k) for k in [[97], LK]) + "}\nIX == {0, 1, 4}\nLI == {" + ", ".join(tla(v) for v in LITS) + "}\n"
    r = run_tlc(chk, "store", "MC_Faults", defs=d, constants=dict(Starts0="<- S0", OpNames="<- OpN", KeySet="<- KS", Idx="<- IX", Lits="<- LI", Depth=1 if q else 2, MaxNodes=9, Ordered="TRUE"), emit=True)
    return [(f"S {store_line(pre)} {op_line(op)}", [[res, post], states], f"{op} on {pre}") for pre, op, res, post, states in tlc_json(r.lines)]

def fault_histories(chk, exe, n, roots, ln):
    r = chk.rng
    it = []
    for _ in range(n):
        st = [rvalue(r, r.choice([1, 2, 2]), floats=False) for _ in range(roots)]
        it.append((st, f"H {store_line(st)} {ln} " + " ".join("%d %d %d %d %d" % (r.randrange(1000), r.randrange(10000), r.randrange(1 << 20), r.randrange(1 << 20), r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 7])) for _ in range(ln))))
    def event(i, o):
        count(o, ("history", i), sum(x[1] for x in o["h"]))
        return dict(init=it[i][0], h=o["h"], leak=o["leak"])
    record(chk, "histories", exe, [l for _, l in it], event, "Trace_Faults", dict(Ordered="TRUE"), lambda i: it[i][0], corrupt_history)

def corrupt_history(e):
    if e["h"]:
        import copy
        f = copy.deepcopy(e); f["h"][-1][3][0] = ["s", [1, 2, 3]]; yield f
        f = copy.deepcopy(e); f["h"][0][1] = 0; f["h"][0][2] = ["x", "alloc"]; yield f
    yield dict(e, leak=1)

# ---- conversions
FT = {n: cv.CONT[n] for n in ("int", "str", "val", "vi", "vb", "vs", "vv", "vms", "vpi", "ls", "dvs", "fs", "ss", "ssi", "us", "a3s", "ms", "mvi", "mv", "umls", "umpi", "ps", "pmi", "mpu", "vpu")}
FT.update({n: cv.BOUND[n] for n in ("mnd", "pnd", "R1", "R3", "R4", "R5", "vR1", "mR2", "pR1", "lpR3", "umR1")})

def lengthen(x):
    """strings that do not fit into a string object"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "s" and x[1]: return ["s", x[1] * 30]
        return [lengthen(y) for y in x]
    return x

def conversions(chk, exes, names, q):
    r = chk.rng
    TS = "TS == <<" + ", ".join(f"<<{json.dumps(n)}, {tla(FT[n][1])}>>" for n in names) + ">>\n"
    m = run_tlc(chk, "conversions", "MC_Convert", defs=TS, constants={"Types": "<- TS", "Big": 0}, emit=True)
    if m.violated: raise CheckError("MC_Convert: " + m.violated)
    todo = {n: [] for n in names}
    for c, res in tlc_json(m.lines):
        n = names[c[1] - 1]
        if c[0] == "to": todo[n] += [("to", f, lengthen(c[2]), lengthen(["o", [[[97], ["s", [98]]]]]) if f == "a" else ["n"]) for f in "cma"]
        elif res[0] != 2: todo[n] += [("from", f, lengthen(c[2]), lengthen(c[3])) for f in "git" if f == "t" or c[3] == cv.default(FT[n][1])]
    for nm, exe in exes.items():
        wide = nm.endswith("_w")
        ev, lines = [], []
        for n in names:
            T = FT[n][1]
            pick = todo[n] if not q else r.sample(todo[n], min(len(todo[n]), 110))
            for _ in range(40 if q else 600):
                f = r.choice("cmagitt")
                if f in "cma": pick.append(("to", f, lengthen(cv.rnat(r, T)), lengthen(rvalue(r, 1, floats=False)) if f == "a" else ["n"]))
                else:
                    v = cv.to(T, cv.rnat(r, T))
                    while r.random() < .3: v = cv.rmut(r, v)
                    pick.append(("from", f, lengthen(v), lengthen(cv.rnat(r, T)) if f == "t" else cv.default(T)))
            for op, f, x, p in pick:
                if op == "to": ev.append(dict(op=op, t=names.index(n) + 1, form=f, p=p)); lines.append(f"to {n} {f} {cv.npolish(T, x)} {polish(p)}")
                else: ev.append(dict(op=op, t=names.index(n) + 1, form=f, p=p, v=x)); lines.append(f"from {n} {f} {cv.npolish(T, p)} {polish(x)}")
        def event(i, o):
            count(o, (nm, i), o["n"])
            return dict(ev[i], **o)
        record(chk, nm[2:], exe, lines, event, "Trace_FaultConvert", {"Types": "<- TY"}, lambda i: lines[i], corrupt_conv,
               defs="TY == <<" + ", ".join(tla(FT[n][1]) for n in names) + ">>\n")

def corrupt_conv(e):
    yield dict(e, leak=1)
    if e["op"] == "to": yield dict(e, f=[["ok", ["a", [e["ok"][1]]], 0]])
    elif e["ok"][0] == "1": yield dict(e, f=[["0", e["ok"][1], e["v"], e["ok"][:2]]])

# ---- parsing and dumping
ENUM = ["[1]", "{\"k\":null}", "tru", "[1,]x", "\"\\u00e9\\ud83d\\ude00\"", "1\x00]", " /* */ -1.5e3 //", "[\x00", "\"a\x00\"", "{\"a\":1,\"a\":2}\x00{", "", "\x00", "[[]", "0 ", "nul\x00"]

def io_models(chk, q):
    r = chk.rng
    texts = [cp(t) for t in ENUM]
    while len(texts) < (120 if q else 700): texts.append(cp(nosurr(mutate(r, rdoc(r, 2)) if r.random() < .5 else rdoc(r, 2)))[:40])
    vals = [["a", [A, B, ["n"]]], ["o", [[[107], ["a", []]], [[233, 128512], ["d", flt_dec(0.5)]]]], ["s", [97, 233, 0, 128512]], ["a", [["o", []], ["o", [[[97], ["b", 1]]]]]]]
    d = f"TX == {tla(set(map(tuple, texts)))}\nVS == {{{', '.join(map(tla, vals))}}}\nOS == {{[DefaultOpt EXCEPT !.step = oa, !.esc = ob] : oa \\in {{0, 2}}, ob \\in {{0, 1}}}}\n"
    m = run_tlc(chk, "io", "MC_FaultIO", defs=d, constants={"Texts": "<- TX", "Values": "<- VS", "Opts": "<- OS", "NumCfg": "<- Cfg64"},
                invariants=["Reported", "Prefix", "Exact", "SourceLaw", "Monotone", "MustEnd"], properties=["Stops"])
    if m.violated: raise CheckError("MC_FaultIO: " + m.violated)

def rtext(r):
    k = r.randrange(8)
    if k == 0: return r.choice(ENUM)
    t = rdoc(r, 3)
    if k == 1: t = mutate(r, t)
    if k == 2: t = t + "\x00" + rdoc(r, 1)
    if k >= 5: t = t.replace('"', '"' + "x" * r.choice([1, 20, 70]), 1).replace(":", ": " * r.choice([1, 1, 3]), 1)
    if k == 7: t = "[" * 12 + t + "]" * 12
    return nosurr(t)[:120 if k < 7 else 150]

def rval(r):
    v = rvalue(r, r.choice([1, 2, 3]), floats=False)
    if r.random() < .3: v = lengthen(v)
    if r.random() < .3: v = ["a", [v, ["d", flt_dec(r.choice([0.5, -1.25, 1e20, 3.0]))]]]
    if r.random() < .05: v = ["a", [v, ["s", [97, 0xD800]]]]
    return v

PA, PS, DA, DW = "sciSCI>", "tTmaAb>}", "rso<", "eEtTpmaA<"
def faulty_io(chk, exes, q):
    r = chk.rng
    for nm, exe in exes.items():
        lines, ev = [], []
        def parse(kind, u, f, t):
            t = [c for c in cp(t)]
            if f in "cC": t = [c for c in t if c]
            lines.append(f"{kind} {u} {f} {cps(t)}"); ev.append(dict(kind=kind, unit=u, form=f, t=t))
        def dump(kind, u, f, v):
            st, ch, es = r.choice([0, 0, 1, 2, 4]), r.choice([32, 32, 9, 46]), r.randrange(2)
            v = obsform(v)
            lines.append(f"{kind} {u} {f} {st} {ch} {es} {polish(v)}"); ev.append(dict(kind=kind, unit=u, form=f, step=st, ch=ch, esc=es, v=v))
        n = 35 if q else 400
        for u in "1w":
            for f in PA:
                for _ in range(n): parse("pa", u, f, rtext(r))
            for f in PS:
                for _ in range(n): parse("ps", u, f, rtext(r))
            for f in DA:
                for _ in range(n): dump("da", u, f, rval(r))
            for f in DW:
                for _ in range(n): dump("dw", u, f, rval(r))
        def event(i, o):
            count(o, (nm, i), o["n"])
            return dict(ev[i], **o)
        record(chk, "io" + nm[9:], exe, lines, event, "Trace_FaultIO", {"NumCfg": "<- Cfg64"}, lambda i: str(ev[i])[:400], corrupt_io)

def corrupt_io(e):
    yield dict(e, leak=1)
    f = [list(x) for x in e["f"]]
    if e["kind"] == "pa" and f: yield dict(e, f=[[["v", ["s", [1, 2, 3, 4, 5, 6, 7]]], f[0][1]]])
    if e["kind"] == "ps" and 0 not in e["t"]: yield dict(e, f=f[:-1] + [[f[-1][0], ["v", ["n"]]]])
    if e["kind"] == "da" and f and e["ok"][0] == "t": yield dict(e, f=[[["t", e["ok"][1][:-1]], *f[0][1:]]])
    if e["kind"] == "dw" and e["ok"][0] == "t": yield dict(e, f=[[f[0][0], "ok", f[0][2]]] + f[1:])

def run(chk):
    q = chk.quick
    names = list(FT)
    specs = [("h_fault", "h_fault.cpp", SAN)]
    for p in range(3):
        d = os.path.join(chk.dir, f"inc{p}")
        os.makedirs(d)
        with open(os.path.join(d, "records.inc"), "w") as f: f.write(cv.records(False, []))
        with open(os.path.join(d, "types.inc"), "w") as f: f.write(cv.types_inc({n: FT[n] for n in names[p::3]}))
        specs.append((f"h_faultconv{p}", "h_faultconv.cpp", SAN + [f"-I{d}"]))
    specs += [("h_faultio", "h_faultio.cpp", SAN), ("h_faultio_w", "h_faultio.cpp", SAN + ["-DVARIANT=1"])]
    exes = build(chk, *specs)
    exe = exes["h_fault"]
    cs = store_faults(chk, exe, q)
    judge(chk, "store", exe, cs, same_fault)
    fault_histories(chk, exe, 1500 if q else 15000, 3, 40)
    for p in range(3): conversions(chk, {f"h_faultconv{p}": exes[f"h_faultconv{p}"]}, names[p::3], q)
    io_models(chk, q)
    faulty_io(chk, {k: e for k, e in exes.items() if k.startswith("h_faultio")}, q)
    chk.extra["rule"] = "a fault counts when it struck: an injected allocation failure that was reached, or a source or sink position that was tried"
    chk.extra["distinct_nontrivial"] = sum(STRUCK.values())
