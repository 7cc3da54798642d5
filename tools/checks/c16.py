"""C16: dump honours and preserves the output stream's formatting state."""
from lib import *
from gen import *
from checks.writer import VT

TECHNIQUE = "TLA+ model of an output stream with its formatting state: TLC explores every sequence of setters, dumps (all forms) and plain insertions up to a depth and checks concatenation, preservation and width reset; every sequence replayed on the real streams and sinks, recorded random sequences validated by TLC"
NOTE = ("All sequences of 3 operations out of 41 (setters of width, fill, precision, notation, flags, stream and global locale, failure and clearing; json::dump to stream and string with and without options, dumps that fail, option objects used again, the insertion wrapper over values and containers, plain strings and "
        "integers) over four value/target character widths and sinks (string stream, adapters by character and block, own buffer); after every operation the whole formatting state, the state bits and the received text are compared; random sequences of up to 25 operations are accepted by TLC.")
ASSUMPTIONS = ["widths 0..255 and fill characters other than NUL; json::dump is not called directly on a failed stream (only the wrapper is specified there)"]

FL = {"hex": 1, "oct": 2, "showpos": 4, "uppercase": 8, "showbase": 16, "boolalpha": 32, "left": 64, "showpoint": 128, "unitbuf": 256}

def opt_line(x): return " ".join(map(str, x))
def op_line(op, r=None):
    k = op[0]
    if k == "fl": return "fl %d" % sum(FL[f] for f in op[1])
    if k == "fail": return "fail %d" % (r.randrange(3) if r else 0)
    if k == "clear": return k
    if k in ("wr", "wt"): return f"{k} {polish(op[1])}"
    if k in ("d", "ds", "dr"): return f"{k} {polish(op[1])} {len(op[2])} " + " ".join(opt_line(x) for x in op[2])
    if k == "dx": return f"dx {op[1]} {op[2]} {len(op[3])} " + " ".join(opt_line(x) for x in op[3])
    if k == "s": return f"s {cps(op[1])}"
    return f"{k} {op[1]}"
def line(c, ops, r): return f"{c} {len(ops)} " + " ".join(op_line(o, r) for o in ops)

F1 = ["d", flt_dec(2.0 / 3)]
F2 = ["d", flt_dec(1234567.25)]
VA = ["a", [F1, ["i", [1, 2, 5, 5]], ["s", [97, 233]]]]
VO = ["o", [[[107], ["a", [F2]]], [[108], ["o", []]]]]
OPS = ([["w", 2], ["w", 5], ["fi", 46], ["fi", 9], ["p", 2], ["p", 10], ["ff", 1], ["ff", 2], ["ff", 3], ["ff", 0], ["fl", ["hex", "showbase", "uppercase", "showpos"]], ["fl", ["oct", "left", "showpoint", "boolalpha", "unitbuf"]],
        ["loc", 1], ["gl", 1], ["fail"], ["clear"], ["s", [97, 98]], ["i", 1234567]]
       + [["d", v, []] for v in (VA, F2, ["b", 1])] + [["wr", v] for v in (VA, VO, F1)] + [["wt", VA], ["wt", VO]]
       + [["d", VA, [["ind", 1, 32]]], ["d", VO, [["ind", 0, 32]]], ["d", VA, [["prec", 3, 1]]], ["d", VA, [["prec", 4, 2], ["esc", 1]]], ["d", VO, [["prec", 8, 0], ["ind", 2, 9], ["ind", 1, 32]]], ["d", F1, [["prec", 7, 3]]]]
       + [["ds", VA, []], ["ds", VO, [["ind", 2, 32], ["prec", 3, 1]]], ["dr", VA, [["esc", 1]]], ["dr", VO, []]]
       + [["dx", 0, 0, [["prec", 9, 1], ["ind", 3, 9]]], ["dx", 1, 1, [["prec", 4, 2]]], ["dx", 0, 2, []]])

def ropts(r):
    xs = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        xs.append(r.choice([["ind", r.choice([0, 1, 2, 4, 9]), r.choice([32, 9, 46])], ["esc", r.randrange(2)], ["prec", r.randrange(0, 18), r.randrange(4)]]))
    return xs
def rops(r):
    ops, ok = [], True
    for _ in range(r.randrange(1, 26)):
        k = r.randrange(14)
        if k == 0: ops.append(["w", r.choice([0, 1, 2, 3, 8, 40, 255])])
        elif k == 1: ops.append(["fi", r.choice([32, 32, 9, 46, 48])])
        elif k == 2: ops.append(["p", r.randrange(0, 20)])
        elif k == 3: ops.append(["ff", r.randrange(4)])
        elif k == 4: ops.append(["fl", sorted(r.sample(sorted(FL), r.randrange(5)), key=str)])
        elif k == 5: ops.append([r.choice(["loc", "gl"]), r.randrange(2)])
        elif k == 6:
            ops.append(["fail"] if ok else ["clear"]); ok = not ok
        elif k == 7: ops.append(["s", cp(r.choice(["", "x", "text", "a b"]))] if r.random() < .5 else ["i", r.choice([0, 7, 1000, 2**31 - 1, r.randrange(2**20)])])
        elif k < 10 and ok: ops.append(["d", rvalue(r, 2), ropts(r)])
        elif k == 10: ops.append(["wr", rvalue(r, 2)] if r.random() < .6 else ["dx", r.randrange(2), r.randrange(3) if ok else 2, ropts(r)])
        elif k == 11:
            v = rvalue(r, 2)
            ops.append(["wt", v if v[0] in "ao" else ["a", [v]]])
        else: ops.append([r.choice(["ds", "dr"]), rvalue(r, 2), ropts(r)])
    for o in ops:
        if o[0] == "fl" and "hex" in o[1] and "oct" in o[1]: o[1].remove("oct")
    return ops

def run(chk):
    q = chk.quick
    r = chk.rng
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_stream", "h_stream.cpp", SAN))
        t = run_tlc(chk, "sequences", "MC_Stream", defs=f"OP == {{{', '.join(sorted({tla(o) for o in OPS}))}}}\n", constants={"Ops": "<- OP", "Depth": 3, "NumCfg": "<- Cfg64"},
                    invariants=["Concatenated", "Emit"], properties=["Preserved", "WidthReset", "FailedTakesNothing", "Readable"], emit=True, heap="8g")
        if t.violated: raise CheckError(t.violated)
        exe = fut.result()["h_stream"]
    cfgs = [v + s for v in VT for s in "scbf"]
    cases = []
    for i, (ops, shown, out, s) in enumerate(tlc_json(t.lines)):
        for c in ([cfgs[i % 16], cfgs[(i * 7 + 5) % 16]] if q else cfgs):
            cases.append((line(c, ops, r), dict(h=shown, t=out, s=s), f"{c} {ops}"))
    judge(chk, "sequences", exe, cases, lambda e, o: e == o)
    ev, lines = [], []
    for i in range(2400 if q else 20000):
        ops = rops(r)
        ev.append(ops); lines.append(line(r.choice(cfgs), ops, r))
    record(chk, "random", exe, lines, lambda i, o: dict(o, ops=ev[i]), "Trace_Stream", {}, lambda i: ev[i], corrupt)

def corrupt(e):
    yield dict(e, t=e["t"] + [32])
    h = [list(x) for x in e["h"]]
    h[-1][2] += 1
    yield dict(e, h=h)
    if e["s"]: yield dict(e, s=e["s"][:-1])
