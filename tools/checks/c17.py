"""C17: calls depend only on their arguments: no hidden state, no data races."""
from lib import *
from gen import *
from checks import convert as cv
from checks.store import polish as _p
import re

TECHNIQUE = ("TLA+ model of calls as functions of their arguments (Calls.tla) and of calls going on at the same time, character by character (MC_Calls.tla: isolation and linear results over all interleavings; the same model with scratch space shared between calls must be refuted); "
             "TLC's interleavings are replayed on the real code under a controlled scheduler, programs of several threads run freely (ThreadSanitizer) or switched at every allocation, and TLC validates every recorded transcript against Calls.tla, in which neither earlier calls nor other threads appear")
NOTE = ("Parse, dump, store operations, every way of reading a container, comparison, iteration and conversions over shared (read-only) values and one private value per thread. Every interleaving at character grain of two or three parses/dumps (TLC-generated), every nesting of calls within calls (a source that parses, a sink that dumps), "
        "2-4 threads running freely under ThreadSanitizer for several rounds, threads switched at every allocation and character, and long sequential histories with failing calls in between (faults, rejected text, throwing sources, error handlers), with texts one after the other in the same place, while the surroundings change (global locale with other digits, points, spaces and letter cases, C locale, errno, floating point flags, flags of the standard and the caller's streams); narrow and wide values.")
ASSUMPTIONS = ["shared values are only read; a value written by one thread is private to it", "ThreadSanitizer decides the absence of data races on the schedules run; switching grain of the controlled runs is the allocation and the character"]

I = ["int"]
FT = {"ll": ("long long", I), "str": ("S", ["str"]), "vll": ("std::vector<long long>", cv.seq(I)), "vs": ("std::vector<S>", cv.seq(["str"])), "msl": ("std::map<S, std::list<S>>", cv.mp(cv.seq(["str"]))), "vv": ("std::vector<V>", cv.seq(["val"])),
      "mv": ("std::map<S, V>", cv.mp(["val"])), "pll": ("std::unique_ptr<long long>", cv.ptr(I)), "R1": cv.BOUND["R1"], "vR1": cv.BOUND["vR1"], "bool": ("bool", ["bool"])}

def small(v):
    """integers that fit into an int"""
    if v[0] == "i": return ["i", int_dec(dec_int(v[1]) % 100000)]
    if v[0] == "a": return ["a", [small(x) for x in v[1]]]
    if v[0] == "o": return ["o", [[k, small(x)] for k, x in v[1]]]
    return v
def val(r, d=2):
    v = small(rvalue(r, d, floats=False))
    k = r.randrange(12)
    if k == 0: v = ["a", [v, ["d", flt_dec(r.choice([0.5, -2.25, 3.0]))]]]
    if k == 1: v = ["o", [[[97], small(["i", int_dec(rint(r))])], [[98], ["s", cp(rstr(r))]], [cp("see"), ["d", [1, 0, 1, 5]]]]]
    if k == 2: v = ["a", [["s", cp(rstr(r, 40))] for _ in range(3)]]
    if k == 3: v = ["a", [["i", int_dec(r.randrange(1000))] for _ in range(5)]]
    return v
def doc(r):
    while True:
        t = rdoc(r, r.choice([1, 2, 3]))
        if r.random() < .3: t = mutate(r, t)
        t = nosurr(t)
        if len(t) < 200 and not re.search(r"\d[.eE]|\.\d|\d{9}", t): return t

def simple(r):
    """fractions with an exact binary value, and plain numbers, in a document"""
    n = lambda: r.choice(["%d.5" % r.randrange(-3000, 3000), "-%d.25" % r.randrange(5000), "1e%d" % r.randrange(6), "1.%se1" % r.choice(["5", "25"]), str(r.randrange(-99999, 10 ** 8)), "0.125", "12345.0"])
    return r.choice([lambda: n(), lambda: "[" + ",".join(n() for _ in range(r.randrange(1, 5))) + "]", lambda: '{"i I":' + n() + ', "\t1":[true,false , ' + n() + ']}', lambda: " " + n() + "," + n(), lambda: r.choice(["true", "\t false", "null ", "yyy", "nn", "1,5", "1.000.5", "TRUE", "0x10", "1'000"])])()
def call(r, env=False):
    if env and r.random() < .12: return f"-1 en {r.randrange(512)}"
    k = r.randrange(18)
    f = r.randrange(12) if r.random() < .12 else -1
    u = r.choice("11w")
    if k < 4: return "-1 st %d %d %d %d" % (r.randrange(1000), r.randrange(10000), r.randrange(1 << 20), r.randrange(1 << 20))
    if k < 8:
        m = r.choice("sciyhx")
        t = [c for c in cp(simple(r) if env and r.random() < .5 else doc(r)) if m != "c" or c]
        return f"{f} pa {u} {m} {cps(t)}"
    x = r.randrange(1 << 24)
    if k < 11: return f"{f} du {u} {r.choice('rsoy<')} {x} {r.choice([0, 0, 2, 4])} {r.choice([32, 9])} {r.randrange(2)}"
    if k == 11: return f"-1 it {x}"
    if k < 14: return f"{f} ge {r.choice(list(FT))} {x}"
    if k > 15: return f"-1 rd {x} {r.randrange(1 << 16)}"
    return f"-1 cm {x} {r.randrange(1 << 24)}"
def prog(r, n, env=False): return f"{polish(val(r, 1))} {n} " + " ".join(call(r, env) for _ in range(n))

def case(r, mode, rounds, S, T, n, picks):
    sh = [obsform(val(r)) for _ in range(S)]
    return sh, f"{mode} {rounds} {S} {' '.join(map(polish, sh))} {T} ".replace("  ", " ") + " ".join(prog(r, n, T == 1) for _ in range(T)) + f" {picks} " + " ".join(str(r.randrange(T)) for _ in range(picks))

def corrupt(e):
    import copy
    yield dict(e, shared=e["shared"] + [["n"]])
    if e["t"] and e["t"][0][1]:
        if e["t"][0][1][-1][0][1] != "ge": f = copy.deepcopy(e); f["t"][0][1][-1][2] = ["s", [1, 2, 3]]; yield f
        if e["t"][0][1][0][0][1] not in ("ge", "cm", "en"):  # some of these are free
            f = copy.deepcopy(e); f["t"][0][1][0][1] = ["c", [0, 0]]; yield f

J = [[["r", '[1]'], ["r", '"a"']], [["r", '{"k":2}'], ["r", '3.5']], [["r", '[12]'], ["w", ["a", [A_ for A_ in [["i", [1, 7]], ["n"]]]]]], [["w", ["s", [97, 34, 233]]], ["w", ["i", [-1, 4, 2]]]],
     [["r", '"\\u00e9"'], ["r", '"\u20ac"']], [["r", 'tru'], ["r", 'null']], [["r", '"x'], ["r", '"y"']], [["r", '1,'], ["r", '-1']], [["w", ["d", flt_dec(0.5)]], ["r", '1e2']], [["r", '/**/1'], ["r", '//\n2']], [["r", '"\\ud83d\\ude00"'], ["r", '"z"']]]
J3 = [[["r", '[1]'], ["r", '"'], ["r", "2"]], [["r", '"a'], ["w", ["i", [1, 3]]], ["r", '4']], [["w", ["b", 1]], ["r", '5'], ["r", "x"]]]

def jobs(js): return "JB == {" + ", ".join(tla([[k, cp(x) if k == "r" else x] for k, x in j]) for j in js) + "}\n"
def cut(js, n): return [j for j in js if sum(len(x) + 1 if k == "r" else 5 for k, x in j) <= n]

def interleavings(chk, exes, q):
    # the model distinguishes: readers sharing a buffer are found out
    bad = run_tlc(chk, "shared-scratch", "MC_Calls", defs=jobs(J), constants={"Jobs": "<- JB", "Scratch": "TRUE", "Nested": "FALSE", "NumCfg": "<- Cfg64"}, invariants=["Isolated"])
    if not bad.violated: raise CheckError("MC_Calls: shared scratch goes unnoticed")
    todo = []
    for name, js, nested in (("interleavings", cut(J, 12 if q else 14) + cut(J3, 12), False), ("nested", J + J3, True)):
        m = run_tlc(chk, name, "MC_Calls", defs=jobs(js), constants={"Jobs": "<- JB", "Scratch": "FALSE", "Nested": "TRUE" if nested else "FALSE", "NumCfg": "<- Cfg64"}, invariants=["Isolated", "Results", "Emit"], emit=True)
        if m.violated: raise CheckError("MC_Calls: " + m.violated)
        todo.append((name, "n" if nested else "c", list(tlc_json(m.lines))))
    for nm, exe in exes.items():
        for name, mode, cs in todo:
            if q and len(cs) > 9000: cs = chk.rng.sample(cs, 9000)
            lines, ev = [], []
            for js, sched in cs:
                u = chk.rng.choice("1w")
                ps = []
                for i, (k, x) in enumerate(js): ps.append(f"n 1 -1 pa {u} y {cps(x)}" if k == "r" else f"{polish(x)} 1 -1 du {u} y 0 0 32 0")
                lines.append(f"{mode} 1 0 {len(js)} " + " ".join(ps) + f" {len(sched)} " + " ".join(map(str, sched)))
                ev.append([])
            record(chk, name + nm[7:], exe, lines, lambda i, o: dict(s=[], t=o["t"], shared=o["shared"]), "Trace_Calls", {"NumCfg": "<- Cfg64", "Types": "<- TY"}, lambda i: lines[i], corrupt, defs=TY)
TY = "TY == [" + ", ".join(f"{n} |-> {tla(d)}" for n, (_, d) in FT.items()) + "]\n"

def programs(chk, name, exe, its):
    record(chk, name, exe, [l for _, l in its], lambda i, o: dict(s=its[i][0], t=o["t"], shared=o["shared"]), "Trace_Calls", {"NumCfg": "<- Cfg64", "Types": "<- TY"}, lambda i: its[i][1][:300], corrupt, defs=TY)

def run(chk):
    q, r = chk.quick, chk.rng
    specs = []
    for w, x in ((False, ""), (True, "_w")):
        d = os.path.join(chk.dir, "inc" + x)
        os.makedirs(d)
        with open(os.path.join(d, "records.inc"), "w") as f: f.write(cv.records(w, []))
        with open(os.path.join(d, "types.inc"), "w") as f: f.write(cv.types_inc(FT))
        fl = [f"-I{d}"] + (["-DVARIANT=1"] if w else [])
        specs += [("h_calls" + x, "h_calls.cpp", SAN + fl), ("h_callst" + x, "h_calls.cpp", TSAN + fl)]
    exes = build(chk, *specs)
    interleavings(chk, {k: exes[k] for k in ("h_calls", "h_calls_w")}, q)
    for x in ("", "_w"):
        n = 1 if q else 10
        programs(chk, "free" + x, exes["h_callst" + x], [case(r, "f", 4, 3, r.choice([2, 3, 4]), 20, 0) for _ in range(60 * n)])
        programs(chk, "switched" + x, exes["h_calls" + x], [case(r, "b", 1, 2, r.choice([2, 3]), 8, 2000) for _ in range(120 * n)])
        programs(chk, "sequential" + x, exes["h_calls" + x], [case(r, "f", 1, 1, 1, 150, 0) for _ in range(25 * n)])
