"""C19: values of every configuration obey the same laws."""
from lib import *
from gen import *
from checks import store, c02, c08, c09, c10, writer
from checks import convert as cv
import re, struct

TECHNIQUE = ("the specifications of stores, iterators, typed access, comparison, conversion, reading and writing with the configuration as parameter (key order or insertion order, 32- or 64-bit numbers): TLC's transitions and tables for each configuration are replayed on it, recorded random histories, documents, dumps and conversions of each are validated by TLC")
NOTE = ("Characters of wchar_t; objects in order of insertion; 32-bit integer with float; an allocator of its own that checks every release against what was given out; characters of 16 bits (char16_t); and wide + insertion order + 32 bit + deque arrays together: store operations (with every allocation accounted for, and nothing that a value keeps coming from another allocator), "
        "iterators, typed access, all six comparisons, conversions of containers and bound types, parsing and dumping.")
ASSUMPTIONS = ["configured containers offer the interface of the standard container they replace, with references that survive insertion as those of std::map do", "parsing and dumping are for standard strings (another allocator does not compile with them)",
               "char16_t without U+E000 to U+FFFF (keys are in order of code units; U+FFFF is in KNOWN_FINDINGS C05)",
               "with insertion order, converting an unordered_map gives its own iteration order and is not judged"]

# name, variant, keys ordered, 32 bit, wide
CONFS = [("wide", 1, True, False, True), ("insertion", 2, False, False, False), ("small", 3, True, True, False), ("allocator", 4, True, False, False), ("mixed", 5, False, True, True), ("wide16", 6, True, False, "u")]

# keys of char16_t are in order of units, not of characters; and U+FFFF is the known finding of C05
def high16(t): return re.search("[\ue000-\uffff]|\\\\u[efEF]", t) is not None
def fit(v, small):
    if not small: return v
    if v[0] == "i": return ["i", int_dec(dec_int(v[1]) % 2000000)] if v[1][0] >= 0 else ["i", int_dec(-(dec_int(v[1]) % 2000000))]
    if v[0] == "d": return ["d", flt_dec(round(max(-1e5, min(1e5, dec_flt(v[1]))) * 4) / 4)]
    if v[0] == "a": return ["a", [fit(x, small) for x in v[1]]]
    if v[0] == "o": return ["o", [[k, fit(x, small)] for k, x in v[1]]]
    return v
def shuffled(r, v, ordered):
    if v[0] == "a": return ["a", [shuffled(r, x, ordered) for x in v[1]]]
    if v[0] == "o":
        m = [[k, shuffled(r, x, ordered)] for k, x in v[1]]
        if not ordered: r.shuffle(m)
        return ["o", m]
    return v

A, B = store.A, store.B
def stores(chk, c, exe, tr, q):
    name, var, ordered, small, wide = c
    store.judge(chk, "store-" + name, exe, store.cases(tr), store.same)
    r = chk.rng
    its = []
    for _ in range(500 if q else 5000):
        st = [shuffled(r, obsform(fit(rvalue(r, r.choice([1, 2, 2]), floats=False), small)), ordered) for _ in range(2)]
        its.append((st, f"H {store.store_line(st)} 40 " + " ".join("%d %d %d %d" % (r.randrange(1000), r.randrange(10000), r.randrange(1 << 20), r.randrange(1 << 20)) for _ in range(40))))
    record(chk, "histories-" + name, exe, [l for _, l in its], lambda i, o: dict(init=its[i][0], h=o["h"], leak=o["leak"]), "Trace_Store", dict(Ordered=tb(ordered)), lambda i: its[i][0], store.corrupt)
def tb(b): return "TRUE" if b else "FALSE"

OBJ = ["o", [[[98], A], [[97], ["a", [B]]], [[99], ["n"]]]]
IVALS = [["n"], ["i", [-1, 4, 2]], ["s", [97, 98]], ["a", []], ["o", []], ["a", [A, ["n"], B]], OBJ, ["o", [[[122], ["o", [[[121], A], [[97], B]]]], [[98], ["d", [1, 0, 2, 5]]]]]]
def sorted_obj(v):
    if v[0] == "a": return ["a", [sorted_obj(x) for x in v[1]]]
    if v[0] == "o": return ["o", sorted([[k, sorted_obj(x)] for k, x in v[1]])]
    return v
def conf_vals(vs, ordered): return [sorted_obj(v) for v in vs] if ordered else vs

def iter_model(chk, name, ordered, depth):
    vs = conf_vals(IVALS, ordered)
    starts = [[[v, vs[(i * 3 + 2) % len(vs)]], [[1, 0], [1, 0]], d] for d in "fr" for i, v in enumerate(vs)]
    dd = "S0 == {" + ", ".join(tla(s) for s in starts) + "}\nKS == {" + ", ".join(tla(k) for k in ([97], [98], [120])) + "}\n"
    return list(tlc_json(run_tlc(chk, name, "MC_Iterators", defs=dd, constants=dict(Starts0="<- S0", KeySet="<- KS", Depth=depth, Ordered=tb(ordered)), emit=True).lines))
def iters(chk, c, exe, ts, q):
    cases = []
    for pre, op, res, post in ts:
        for k in "mc":
            if k == "c" and op[0] in ("wr", "er", "ee"): continue
            cases.append((c08.line(k, pre, [op]), [[res, post]], f"{k} {op} on {pre}"))
    n = 5000 if q else 100000
    if len(cases) > n: cases = chk.rng.sample(cases, n)
    judge(chk, "iterators-" + c[0], exe, cases, c08.same)

def access_table(chk):
    vs = [v for v in c09.VALS] + [OBJ]
    d = "VS == {" + ", ".join(tla(v) for v in vs) + "}\nPS == {" + ", ".join(tla(p) for k in c09.PRI for p in c09.PRI[k]) + "}\n"
    r = run_tlc(chk, "access", "MC_Access", defs=d, constants=dict(Vals="<- VS", Priors="<- PS", Ordered="FALSE"), emit=True)
    return list(tlc_json(r.lines))
def access(chk, c, exe, ts):
    ordered = c[2]
    cases = []
    for (v, f, k, x), exp in ts:
        if v == OBJ and ordered: continue
        for t in c09.ctypes(v, f, k, x): cases.append((f"{f} {k} {t} {polish(v)} {polish(x)}", exp, str((f, k, t, v, x))))
    judge(chk, "access-" + c[0], exe, cases, c09.same)

def compare_vals():
    s = [["n"], ["b", 0], ["b", 1]] + [["i", int_dec(i)] for i in (0, 1, -1, 2, 10, 127, 128, -128, 65536, 2**24, -2**24, 2000000)] + [["d", flt_dec(f)] for f in (0.0, 1.0, -1.0, 0.5, 1.5, 2.0, -128.0, 2.0**24, 1e5)] + [["s", cp(t)] for t in ("", "a", "b", "ab", "a\x00", "\u00e9", "z" * 20)]
    e = [["n"], ["i", [1, 1]], ["d", [1, 0, 1]], ["s", [97]]]
    a = [["a", []]] + [["a", [x]] for x in e] + [["a", [x, y]] for x in e[1:] for y in e[:2]]
    o = [["o", []]] + [["o", [[[k], x]]] for k in (97, 98) for x in e[:3]] + [["o", [[[97], x], [[98], y]]] for x in e[1:3] for y in e[:2]] + [["o", [[[98], x], [[97], y]]] for x in e[1:3] for y in e[:2]]
    return s + a + o
def compare_table(chk):
    d = lambda vs: "VS == {" + ", ".join(tla(v) for v in vs) + "}\nLoose == 1000\nSingle == 7\n"
    t = list(tlc_json(run_tlc(chk, "compare", "MC_Compare", defs=d(compare_vals()), constants=dict(Vals="<- VS", Ordered="FALSE"), emit=True).lines))
    # integers that floats of single precision cannot hold
    vs = [["i", int_dec(i)] for i in (0, 1, 2**24 - 1, 2**24, 2**24 + 1, -2**24 - 1, 2**25 - 1, 2**25 + 1, 2**31 - 1, -2**31, 2**31 - 64, 123456789, 33554431)] + [["d", flt_dec(f)] for f in (0.0, 2.0**24, 2.0**24 + 2, -2.0**24, 2.0**25, 2.0**31, -2.0**31, 123456792.0, 0.5)]
    return t, list(tlc_json(run_tlc(chk, "compare32", "MC_Compare", defs=d(vs), constants=dict(Vals="<- VS", Ordered="FALSE", NearLen="<- Single", FTolHi="<- Loose"), emit=True).lines))
def unsorted(v): return v[0] == "o" and [k for k, _ in v[1]] != sorted(k for k, _ in v[1])
def compare(chk, c, exe, ts):
    ts = ts[0] + (ts[1] if c[3] else [])
    judge(chk, "compare-" + c[0], exe, [(f"{polish(x)} {polish(y)}", r, str((x, y))) for x, y, r in ts if not (c[2] and (unsorted(x) or unsorted(y)))], c10.same)

# a few of each kind of type (a container of values converts only where it is the configured container itself)
CT = ["int", "short", "bool", "double", "float", "str", "val", "vi", "vb", "vs", "vvi", "ls", "dvs", "fi", "si", "ss", "a2i", "a3s", "c2s", "mi", "mvi", "ma2", "pi", "ps", "pmi", "mpu", "umi", "us"]
BT = ["R1", "R2", "R3", "R4", "vR1", "mR2", "pR1", "a2R1", "nd", "mnd", "umR1"]
def unordered_map(T): return T[0] == "umap" or any(isinstance(x, list) and unordered_map(x) for x in T[1:] if isinstance(x, list) and x and isinstance(x[0], str)) or (T[0] == "rec" and any(unordered_map(f[2]) for f in T[1]))
def conv_types(ordered):
    t = {n: cv.CONT[n] for n in CT}
    t.update({n: cv.BOUND[n] for n in BT})
    return {n: x for n, x in t.items() if ordered or not unordered_map(x[1])}
def conv_model(chk, name, ordered):
    t = conv_types(ordered)
    names = list(t)
    TS = "TS == <<" + ", ".join(f"<<{json.dumps(n)}, {tla(t[n][1])}>>" for n in names) + ">>\n"
    r = run_tlc(chk, name, "MC_Convert", defs=TS, constants={"Types": "<- TS", "Big": 0, "Ordered": tb(ordered)}, emit=True)
    if r.violated: raise CheckError("MC_Convert: " + r.violated)
    return names, t, list(tlc_json(r.lines))
def convert(chk, c, exe, m, q):
    names, t, ls = m
    cases = []
    for k, res in ls:
        n = names[k[1] - 1]
        T = t[n][1]
        ca = t[n][0].startswith("CARRAY")
        if k[0] == "to":
            for form in "cma": cases.append((f"to {n} {form} {cv.npolish(T, k[2])} {'n' if form != 'a' else 'o 1 1 97 n'}", ["to", T, k[2], res], f"{n} {form} {k[2]}"))
        elif res[0] != 2:
            for form in ("t" if ca else "git"):
                if form != "t" and k[3] != cv.default(T): continue
                cases.append((f"from {n} {form} {cv.npolish(T, k[3])} {polish(k[2])}", ["from", T, form, k[2], res], f"{n} {form} {k[2]} into {k[3]}"))
    n = 12000 if q else 10**9
    if len(cases) > n: cases = chk.rng.sample(cases, n)
    judge(chk, "convert-" + c[0], exe, cases, cv.same)
    rr = chk.rng
    ev, lines = [], []
    for i in range(600 if q else 6000):
        n = rr.choice(names)
        T = t[n][1]
        ca = t[n][0].startswith("CARRAY")
        if rr.random() < .35:
            x = rnat(rr, T, c)
            ev.append(dict(op="to", t=names.index(n) + 1))
            lines.append(f"to {n} {rr.choice('cma')} {cv.npolish(T, x)} n")
        else:
            x = rnat(rr, T, c)
            v = cv.to(T, rnat(rr, T, c))
            while rr.random() < .4: v = cv.rmut(rr, v)
            v = shuffled(rr, v, c[2])
            form = "t" if ca else rr.choice("gitt")
            p = x if form == "t" else cv.default(T)
            ev.append(dict(op="from", t=names.index(n) + 1, v=v, p=p, form=form))
            lines.append(f"from {n} {form} {cv.npolish(T, p)} {polish(v)}")
    record(chk, "conversions-" + c[0], exe, lines, lambda i, o: dict(ev[i], **o), "Trace_Convert", {"Types": "<- TY", "Ordered": tb(c[2])},
           lambda i: lines[i], cv.corrupt, defs="TY == <<" + ", ".join(tla(t[n][1]) for n in names) + ">>\n")
def rnat(r, T, c):
    x = cv.rnat(r, T)
    def f(T, x):
        if T[0] == "val": return fit(x, c[3])
        if T[0] in ("seq", "arr") and x[0] == "a": return ["a", [f(T[-1], y) for y in x[1]]]
        if T[0] == "map": return ["o", [[k, f(T[1], y)] for k, y in x[1]]]
        return x
    return f(T, x)

def text(chk, c, exe, q):
    name, var, ordered, small, wide = c
    r = chk.rng
    cfg = dict(NumCfg="<- Cfg32" if small else "<- Cfg64", Ordered=tb(ordered))
    df = ""
    if small: cfg["FTolHi"] = "<- Loose"; df = "Loose == 1000\n"
    ds = []
    while len(ds) < (700 if q else 7000):
        d = rdoc(r, r.choice([2, 3, 4]))
        if r.random() < .4: d = mutate(r, d)
        if r.random() < .3: # duplicate and unsorted members
            ks = [r.choice(["a", "b", "c", "\u00e9", ""]) for _ in range(r.randrange(6))]
            d = "[" * (r.random() < .3) + "{" + ",".join(f'{json.dumps(k)}: {r.choice([str(r.randrange(9)), "[]", chr(34) + "x" + chr(34), d if len(d) < 40 else "null"])}' for k in ks) + "}" + r.choice(["", "]"])
        d = nosurr(d)
        if wide == "u" and high16(d): continue
        if len(d) < 300: ds.append(d)
    if small:
        ds = [d for d in ds if not re.search(r"[eE][-+]?\d\d|\d{9}", d)]
    cs = [r.choice("nw") for _ in ds]
    lines = [f"pv{cs[i]} {PRIORS[i % len(PRIORS)]} {cps(cp(d))}" for i, d in enumerate(ds)]
    record(chk, "documents-" + name, exe, lines, lambda i, o: dict(t=cp(ds[i]), **o), "Trace_Reader", cfg, lambda i: ds[i], c02.corrupt, defs=df)
    vs, os_, ks, lines = [], [], [], []
    for i in range(700 if q else 7000):
        v = shuffled(r, fit(rvalue(r, r.choice([1, 2, 3])), small), ordered)
        if wide == "u" and any(0xE000 <= int(x) <= 0xFFFF for x in re.findall(r"\b\d{5}\b", polish(v))): continue
        o = writer.rand_opts(r, floats=not small)
        k = r.choice("dr")
        vs.append(v); os_.append(o); ks.append(k)
        lines.append(f"{k}v{r.choice('nw')} {o[0]} {o[1]} {o[2]} {o[3]} {o[4]} {polish(v)}")
    record(chk, "dumps-" + name, exe, lines, lambda i, o: dict(k=ks[i], v=vs[i], o=os_[i], **({"b": o["v"]} if "v" in o else o)), "Trace_Writer", cfg, lambda i: (os_[i], vs[i]), None, defs=df)
    # numbers over the whole range of the configured types
    vs, os_, lines = [], [], []
    lim = [0, 1, -1, 2**31 - 1, -2**31] + ([] if small else [2**31, 2**63 - 1, -2**63])
    for i in range(500 if q else 5000):
        if i < 3 * len(lim): v = [["i", int_dec(lim[i // 3])], ["a", [["i", int_dec(lim[i // 3])]]], ["d", flt_dec(struct.unpack("f", struct.pack("f", float(lim[i // 3])))[0])]][i % 3]
        else:
            f = r.choice([rflt(r), float(r.randrange(-2**40, 2**40)), float(2**r.randrange(20, 90)), r.uniform(-1, 1), 10.0**r.randrange(5, 25)])
            if small:
                if abs(f) > 3e38 or 0 < abs(f) < 1e-37: continue
                f = struct.unpack("f", struct.pack("f", f))[0]
            v = ["d", flt_dec(f)]
        o = [0, 32, 0, r.choice([0, 1, 3, 6, 6, 9]), r.randrange(4)]
        vs.append(v); os_.append(o); lines.append(f"dv{r.choice('nw')} {o[0]} {o[1]} {o[2]} {o[3]} {o[4]} {polish(v)}")
    record(chk, "numbers-" + name, exe, lines, lambda i, o: dict(k="d", v=vs[i], o=os_[i], **o), "Trace_Writer", cfg, lambda i: (os_[i], vs[i]), None, defs=df)
    ts = []
    w = 32 if small else 64
    for i in range(500 if q else 5000):
        k = r.randrange(4)
        if k == 0: t = str(r.choice([-1, 1]) * (2**r.choice([w - 1, w - 1, w, 31, 63]) + r.randrange(-3, 4)))
        elif k == 1: t = str(r.randrange(-2**(w + 1), 2**(w + 1)) >> r.randrange(w - 2))
        elif k == 2: t = "%d.%d" % (r.randrange(1000), r.randrange(100000))
        else: t = "%d.%de%d" % (r.randrange(1, 10), r.randrange(10000), r.randrange(1, 37))
        ts.append(t)
    record(chk, "numerals-" + name, exe, [f"pv{r.choice('nw')} n {cps(cp(t))}" for t in ts], lambda i, o: dict(t=cp(ts[i]), **o), "Trace_Reader", cfg, lambda i: ts[i], c02.corrupt, defs=df)

def run(chk):
    q = chk.quick
    specs, cdir = [], {}
    for name, var, ordered, small, wide in CONFS:
        fl = SAN + [f"-DVARIANT={var}"]
        d = os.path.join(chk.dir, "inc-" + name)
        os.makedirs(d)
        with open(os.path.join(d, "records.inc"), "w") as f: f.write(cv.records(wide, []))
        with open(os.path.join(d, "types.inc"), "w") as f: f.write(cv.types_inc(conv_types(ordered)))
        if var != 1:   # narrow and wide are C11, C12's
            specs.append((f"convert-{name}", "h_convert.cpp", fl + [f"-I{d}"]))
            if var != 4: specs.append((f"text-{name}", "h_text.cpp", fl))
            specs += [(f"access-{name}", "h_access.cpp", fl), (f"compare-{name}", "h_compare.cpp", fl)]
        specs += [(f"store-{name}", "h_store.cpp", fl), (f"iter-{name}", "h_iter.cpp", fl)]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, *specs)
        SOPS = ["cp", "mv", "sw", "cc", "mc", "pb", "pm", "mo", "ix", "ik", "iC", "ai", "ak", "fd", "ct", "ek", "ei", "pv", "cl", "mt"]
        tr, it, cm = {}, {}, {}
        for ordered in (True, False):
            sts = conf_vals2([[OBJ, ["a", [A, ["a", [B]]]]], [["o", [[[98], ["o", [[[98], B], [[97], A]]]], [[97], ["n"]]]], ["s", [120] * 30]]], ordered)
            tr[ordered] = store.model(chk, "store" + tb(ordered), sts, SOPS, [[97], [98], [120]], [0, 1, 3], [A, ["s", [120] * 30], ["o", [[[97], B]]]], 1 if q else 2, 12, ordered=ordered)
            if not q and len(tr[ordered]) > 150000: tr[ordered] = chk.rng.sample(tr[ordered], 150000)
            it[ordered] = iter_model(chk, "iterators" + tb(ordered), ordered, 3 if q else 4)
            cm[ordered] = conv_model(chk, "convert" + tb(ordered), ordered)
        at, ct = access_table(chk), compare_table(chk)
        exes = fut.result()
    for c in CONFS:
        name, var, ordered = c[:3]
        stores(chk, c, exes["store-" + name], tr[ordered], q)
        iters(chk, c, exes["iter-" + name], it[ordered], q)
        if var == 1: continue
        access(chk, c, exes["access-" + name], at)
        compare(chk, c, exes["compare-" + name], ct)
        convert(chk, c, exes["convert-" + name], cm[ordered], q)
        if var != 4: text(chk, c, exes["text-" + name], q)

def conf_vals2(ss, ordered): return [conf_vals(s, ordered) for s in ss]
