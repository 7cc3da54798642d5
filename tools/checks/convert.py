"""Shared by C11 and C12: the C++ types, their descriptors, and the running of both directions."""
from lib import *
from gen import *

I, B, F, S, VAL, NDT = ["int"], ["bool"], ["flt"], ["str"], ["val"], ["nd"]
seq = lambda t: ["seq", t]
st = lambda t: ["set", t]
ust = lambda t: ["uset", t]
arr = lambda n, t: ["arr", n, t]
mp = lambda t: ["map", t]
ump = lambda t: ["umap", t]
ptr = lambda t: ["ptr", t]
rec = lambda *f: ["rec", [[cp(n), bool(q), t] for n, q, t in f]]

# name: (C++ type, descriptor); S is the string type, V the value type
CONT = {
 "int": ("int", I), "short": ("short", I), "llong": ("long long", I), "ulong": ("unsigned long", I), "bool": ("bool", B), "double": ("double", F), "float": ("float", F), "str": ("S", S), "val": ("V", VAL),
 "vi": ("std::vector<int>", seq(I)), "vb": ("std::vector<bool>", seq(B)), "vd": ("std::vector<double>", seq(F)), "vs": ("std::vector<S>", seq(S)), "vv": ("std::vector<V>", seq(VAL)),
 "vvi": ("std::vector<std::vector<int>>", seq(seq(I))), "vms": ("std::vector<std::map<S, S>>", seq(mp(S))), "vpi": ("std::vector<std::shared_ptr<int>>", seq(ptr(I))),
 "li": ("std::list<int>", seq(I)), "ls": ("std::list<S>", seq(S)), "di": ("std::deque<int>", seq(I)), "dvs": ("std::deque<std::vector<S>>", seq(seq(S))),
 "fi": ("std::forward_list<int>", seq(I)), "fs": ("std::forward_list<S>", seq(S)), "fli": ("std::forward_list<std::list<int>>", seq(seq(I))),
 "si": ("std::set<int>", st(I)), "ss": ("std::set<S>", st(S)), "sd": ("std::set<double>", st(F)), "ssi": ("std::set<std::set<int>>", st(st(I))),
 "ui": ("std::unordered_set<int>", ust(I)), "us": ("std::unordered_set<S>", ust(S)), "vui": ("std::vector<std::unordered_set<int>>", seq(ust(I))),
 "a2i": ("std::array<int, 2>", arr(2, I)), "a3s": ("std::array<S, 3>", arr(3, S)), "a0i": ("std::array<int, 0>", arr(0, I)), "a2li": ("std::array<std::list<int>, 2>", arr(2, seq(I))),
 "c3i": ("CARRAY int, 3", arr(3, I)), "c2s": ("CARRAY S, 2", arr(2, S)), "c2vi": ("CARRAY std::vector<int>, 2", arr(2, seq(I))),
 "mi": ("std::map<S, int>", mp(I)), "ms": ("std::map<S, S>", mp(S)), "mv": ("std::map<S, V>", mp(VAL)), "mvi": ("std::map<S, std::vector<int>>", mp(seq(I))), "mmi": ("std::map<S, std::map<S, bool>>", mp(mp(B))), "ma2": ("std::map<S, std::array<int, 2>>", mp(arr(2, I))),
 "umi": ("std::unordered_map<S, int>", ump(I)), "umls": ("std::unordered_map<S, std::list<S>>", ump(seq(S))), "umpi": ("std::unordered_map<S, std::shared_ptr<int>>", ump(ptr(I))),
 "pi": ("std::unique_ptr<int>", ptr(I)), "ps": ("std::shared_ptr<S>", ptr(S)), "pvi": ("std::unique_ptr<std::vector<int>>", ptr(seq(I))), "pmi": ("std::shared_ptr<std::map<S, int>>", ptr(mp(I))), "pa": ("std::unique_ptr<std::array<int, 2>>", ptr(arr(2, I))), "pd": ("std::shared_ptr<double>", ptr(F)), "pb": ("std::unique_ptr<bool>", ptr(B)),
 "name": ("Name", S), "lname": ("std::list<Name>", seq(S)), "a2name": ("std::array<Name, 2>", arr(2, S)), "mnamei": ("std::map<Name, int>", mp(I)), "mname": ("std::map<S, Name>", mp(S)), "pname": ("std::unique_ptr<Name>", ptr(S)), "sname": ("std::set<Name>", st(S)),
 "mpu": ("std::map<S, std::unique_ptr<int>>", mp(ptr(I))), "vpu": ("std::vector<std::unique_ptr<S>>", seq(ptr(S))),
}

R1 = rec(("a", 1, I), ("b", 0, S), ("see", 0, F))
R2 = rec(("x", 0, I), ("y", 0, B))
R3 = rec(("r", 1, R1), ("p", 0, ptr(I)), ("m", 1, mp(R1)), ("v", 0, seq(I)))
R4 = rec(("nd", 1, NDT), ("q", 0, ptr(NDT)), ("w", 1, seq(NDT)))
R5 = rec(("arr", 1, arr(2, I)), ("o", 0, R2), ("u", 0, ump(I)), ("any", 1, VAL), ("e\u00e9", 0, S))
# (struct, fields: (C++ type, C++ name, member name, required, descriptor))
def fields(r, *f): return [(t, n, r[1][i]) for i, (t, n) in enumerate(f)]
RECS = [
 ("R1", R1, [("int", "a"), ("S", "b"), ("double", "c")]),
 ("R2", R2, [("int", "x"), ("bool", "y")]),
 ("R3", R3, [("R1", "r"), ("std::shared_ptr<int>", "p"), ("std::map<S, R1>", "m"), ("std::vector<int>", "v")]),
 ("R4", R4, [("ND", "nd"), ("std::shared_ptr<ND>", "q"), ("std::list<ND>", "w")]),
 ("R5", R5, [("XARR", "arr"), ("R2", "o"), ("XUM", "u"), ("V", "any"), ("S", "e")]),
]
KS = list(range(1, 51))
def krec(k): return rec(*[("f%d" % i, i % 3 != 2, I) for i in range(k)])
BOUND = {
 "nd": ("ND", NDT), "lnd": ("std::list<ND>", seq(NDT)), "mnd": ("std::map<S, ND>", mp(NDT)), "pnd": ("std::unique_ptr<ND>", ptr(NDT)), "snd": ("std::shared_ptr<ND>", ptr(NDT)), "fnd": ("std::forward_list<ND>", seq(NDT)), "umnd": ("std::unordered_map<S, ND>", ump(NDT)), "vpnd": ("std::vector<std::unique_ptr<ND>>", seq(ptr(NDT))), "lmnd": ("std::list<std::map<S, ND>>", seq(mp(NDT))),
 "R1": ("R1", R1), "R2": ("R2", R2), "R3": ("R3", R3), "R4": ("R4", R4), "vR4": ("std::vector<R4>", seq(R4)), "R5": ("R5", R5),
 "vR1": ("std::vector<R1>", seq(R1)), "mR2": ("std::map<S, R2>", mp(R2)), "pR1": ("std::unique_ptr<R1>", ptr(R1)), "lpR3": ("std::list<std::shared_ptr<R3>>", seq(ptr(R3))), "a2R1": ("std::array<R1, 2>", arr(2, R1)), "umR1": ("std::unordered_map<S, R1>", ump(R1)), "cR1": ("CARRAY R1, 2", arr(2, R1)), "dR2": ("std::deque<R2>", seq(R2)),
}

def records(wide, ks):
    """the C++ of the bound types"""
    o = []
    def q(s): return (wide if isinstance(wide, str) else "L" if wide else "") + json.dumps(s, ensure_ascii=False)
    for name, d, fs in RECS:
        o.append(f"struct {name}\n{{")
        for t, n in fs:
            t = {"XARR": "std::array<int, 2>", "XUM": "std::unordered_map<S, int>"}.get(t, t)
            o.append(f"    {t} {n}{{{'0' if t == 'ND' else ''}}};")
        b = []
        for (t, n), (nm, req, _) in zip(fs, d[1]):
            w = "REQUIRED" if req else "OPTIONAL"
            b.append(f"{w}({n})" if txt(nm) == n and not wide else f"{w}({n}, {q(txt(nm))})")
        o.append(f"    CONFIGOR_BIND(V, {name}, {', '.join(b)})")
        o.append("    bool operator!=(const %s& z) const { return %s; }" % (name, " || ".join(f"{n} != z.{n}" for t, n in fs)))
        o.append("    bool operator==(const %s& z) const { return !(*this != z); }\n};" % name)
        o.append(f"RECNAT({name}, {', '.join('v.' + n for t, n in fs)})")
    for k in ks:
        d = krec(k)
        o.append(f"struct K{k} {{ int {', '.join('f%d = 0' % i for i in range(k))};")
        o.append(f"  CONFIGOR_BIND(V, K{k}, " + ", ".join(("REQUIRED" if x[1] else "OPTIONAL") + (f"(f{i}, {q(txt(x[0]))})" if wide or i % 5 == 4 else f"(f{i})") for i, x in enumerate(d[1])) + ") };")
        o.append(f"RECNAT(K{k}, {', '.join('v.f%d' % i for i in range(k))})")
    return "\n".join(o) + "\n"

def types_inc(types):
    o = []
    for n, (c, d) in types.items():
        o.append(f'CARRAY("{n}", {c[7:]})' if c.startswith("CARRAY") else f'TYPE("{n}", {c})')
    return "\n".join(o) + "\n"

def npolish(T, x):
    """native -> harness tokens"""
    if x[0] == "p": return "p " + npolish(T[1], x[1])
    if T[0] == "ptr": return "n"
    if x[0] == "r": return f"r {len(x[1])} " + " ".join(npolish(f[2], y) for f, y in zip(T[1], x[1]))
    if T[0] in ("seq", "set", "uset", "arr"): return (f"a {len(x[1])} " + " ".join(npolish(T[-1], y) for y in x[1])).rstrip()
    if T[0] in ("map", "umap"): return (f"o {len(x[1])} " + " ".join(cps(k) + " " + npolish(T[1], y) for k, y in x[1])).rstrip()
    return polish(x)

def nsame(T, x, y):
    """Same of Convert.tla: x specified, y observed"""
    if x == ["any"]: return True
    if T[0] == "uset": return sorted(map(str, x[1])) == sorted(map(str, y[1]))
    if T[0] in ("seq", "set", "arr"): return len(x[1]) == len(y[1]) and all(nsame(T[-1], a, b) for a, b in zip(x[1], y[1]))
    if T[0] in ("map", "umap"):
        d = {str(k): v for k, v in y[1]}
        return len(x[1]) == len(y[1]) and all(str(k) in d and nsame(T[1], v, d[str(k)]) for k, v in x[1])
    if T[0] == "ptr": return x[0] == y[0] and (x[0] == "n" or nsame(T[1], x[1], y[1]))
    if T[0] == "rec": return all(nsame(f[2], a, b) for f, a, b in zip(T[1], x[1], y[1]))
    return x == y

def vsame(T, x, y):
    """the value made of a native, up to the order of unordered sets"""
    if T[0] == "uset": return y[0] == "a" and sorted(map(str, x[1])) == sorted(map(str, y[1]))
    if T[0] in ("seq", "set", "arr"): return y[0] == "a" and len(x[1]) == len(y[1]) and all(vsame(T[-1], a, b) for a, b in zip(x[1], y[1]))
    if T[0] in ("map", "umap"): return y[0] == "o" and [k for k, _ in x[1]] == [k for k, _ in y[1]] and all(vsame(T[1], a[1], b[1]) for a, b in zip(x[1], y[1]))
    if T[0] == "ptr" and x != ["n"]: return vsame(T[1], x, y)
    return x == y

FLT = {"float"}
def default(T):
    k = T[0]
    if k in ("int", "nd"): return ["i", [0, 0]]
    if k == "bool": return ["b", 0]
    if k == "flt": return ["d", [0, 0]]
    if k == "str": return ["s", []]
    if k in ("val", "ptr"): return ["n"]
    if k in ("seq", "set", "uset"): return ["a", []]
    if k == "arr": return ["a", [default(T[2]) for _ in range(T[1])]]
    if k in ("map", "umap"): return ["o", []]
    return ["r", [default(f[2]) for f in T[1]]]

def rnat(r, T, depth=2):
    k = T[0]
    if k in ("int", "nd"): return ["i", int_dec(r.choice([0, 1, -1, r.randrange(-30000, 30000)]))]
    if k == "bool": return ["b", r.randrange(2)]
    if k == "flt": return ["d", flt_dec(r.choice([0.0, 1.0, 0.5, -2.25, r.randrange(-1000, 1000) / 8]))]
    if k == "str": return ["s", cp(rstr(r))]
    if k == "val": return obsform(rvalue(r, 1))
    n = r.choice([0, 1, 1, 2, 2, 3, 4]) if depth > 0 else r.randrange(2)
    if k == "seq": return ["a", [rnat(r, T[1], depth - 1) for _ in range(n)]]
    if k in ("set", "uset"):
        if T[1][0] == "set": return ["a", []]
        u = {json.dumps(x): x for x in (rnat(r, T[1], depth - 1) for _ in range(n))}
        xs = list(u.values())
        key = {"int": lambda x: dec_int(x[1]), "flt": lambda x: dec_flt(x[1]), "str": lambda x: txt(x[1]).encode()}[T[1][0]]
        return ["a", sorted(xs, key=key)]
    if k == "arr": return ["a", [rnat(r, T[2], depth - 1) for _ in range(T[1])]]
    if k in ("map", "umap"):
        u = {tuple(cp(rkey(r))): rnat(r, T[1], depth - 1) for _ in range(n)}
        return ["o", [[list(q), u[q]] for q in sorted(u)]]
    if k == "ptr": return ["n"] if r.random() < .3 else ["p", rnat(r, T[1], depth)]
    return ["r", [default(f[2]) if r.random() < .3 else rnat(r, f[2], depth) for f in T[1]]]

def to(T, x):
    """proposes a source for a type (the specification judges it)"""
    k = T[0]
    if k in ("seq", "set", "uset", "arr"): return ["a", [to(T[-1], y) for y in x[1]]]
    if k in ("map", "umap"): return ["o", [[q, to(T[1], y)] for q, y in x[1]]]
    if k == "ptr": return x if x == ["n"] else to(T[1], x[1])
    if k == "rec":
        m = {tuple(f[0]): to(f[2], y) for f, y in zip(T[1], x[1])}
        return ["o", [[list(q), m[q]] for q in sorted(m)]]
    return x

def rmut(r, v):
    """a small change somewhere in a value"""
    v = json.loads(json.dumps(v))
    if v[0] in "ao" and v[1] and r.random() < .75:
        i = r.randrange(len(v[1]))
        if r.random() < .25: del v[1][i]
        elif v[0] == "a": v[1][i] = rmut(r, v[1][i])
        else: v[1][i][1] = rmut(r, v[1][i][1])
        return v
    return r.choice([["n"], ["b", 1], ["i", [1, 7]], ["d", [1, 0, 2, 5]], ["s", [97]], ["a", []], ["a", [["n"], ["i", [1, 1]]]], ["o", []], ["o", [[[97], ["i", [1, 2]]]]]])

def run_types(chk, types, ks, n_random):
    with open(os.path.join(chk.dir, "dummy"), "w"): pass
    kt = {f"K{k}": (f"K{k}", krec(k)) for k in ks}
    alltypes = dict(types, **kt)
    specs, dirs = [], {}
    names = list(alltypes)
    for wide in (0, 1):
        use = [n for n in names if not (wide and n.startswith("K") and int(n[1:]) not in (1, 2, 16, 50))]
        nparts = 4 if not wide else 2
        for p in range(nparts):
            mine = use[p::nparts]
            d = os.path.join(chk.dir, f"inc{wide}{p}")
            os.makedirs(d)
            with open(os.path.join(d, "records.inc"), "w") as f: f.write(records(wide, [int(n[1:]) for n in mine if n.startswith("K")]))
            with open(os.path.join(d, "types.inc"), "w") as f: f.write(types_inc({n: alltypes[n] for n in mine}))
            nm = f"h_convert{'_w' if wide else ''}{p}"
            specs.append((nm, "h_convert.cpp", SAN + [f"-I{d}"] + (["-DVARIANT=1"] if wide else [])))
            dirs[nm] = mine
    TS = "TS == <<" + ", ".join(f"<<{json.dumps(n)}, {tla(alltypes[n][1])}>>" for n in names) + ">>\n"
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, *specs)
        r = run_tlc(chk, "conversions", "MC_Convert", defs=TS, constants={"Types": "<- TS", "Big": 0}, emit=True)
        if r.violated: raise CheckError("MC_Convert: " + r.violated)
        cases = {n: [] for n in names}
        for c, res in tlc_json(r.lines):
            n = names[c[1] - 1]
            T = alltypes[n][1]
            if c[0] == "to":
                for form in "cma": cases[n].append((f"to {n} {form} {npolish(T, c[2])} {'n' if form != 'a' else 'o 1 1 97 n'}", ["to", T, c[2], res], f"{n} {form} {c[2]}"))
            elif res[0] != 2:
                for form in ("t" if alltypes[n][0].startswith("CARRAY") else "git"):
                    # get<T>() starts from a fresh object
                    if form != "t" and c[3] != default(T): continue
                    cases[n].append((f"from {n} {form} {npolish(T, c[3])} {polish(c[2])}", ["from", T, form, c[2], res], f"{n} {form} {c[2]} into {c[3]}"))
        exes = fut.result()
    rr = chk.rng
    for nm, exe in exes.items():
        judge(chk, "table" + nm[9:], exe, [c for n in dirs[nm] for c in cases[n]], same)
    # random conversions, recorded and validated
    for nm, exe in exes.items():
        ev, lines = [], []
        for i in range(n_random):
            n = rr.choice(dirs[nm])
            T = alltypes[n][1]
            ca = alltypes[n][0].startswith("CARRAY")
            fl = lambda x: x
            if rr.random() < .35:
                x = rnat(rr, T)
                form = rr.choice("cma")
                ev.append(dict(op="to", t=names.index(n) + 1))
                lines.append(f"to {n} {form} {npolish(T, x)} n")
            else:
                x = rnat(rr, T)
                v = to(T, rnat(rr, T))
                while rr.random() < .4: v = rmut(rr, v)
                form = "t" if ca else rr.choice("gitt")
                p = x if form == "t" else default(T)
                ev.append(dict(op="from", t=names.index(n) + 1, v=v, p=p, form=form))
                lines.append(f"from {n} {form} {npolish(T, p)} {polish(v)}")
        record(chk, "random" + nm[9:], exe, lines, lambda i, o: dict(ev[i], **o), "Trace_Convert", {"Types": "<- TY"},
               lambda i: lines[i], corrupt, defs="TY == <<" + ", ".join(tla(alltypes[n][1]) for n in names) + ">>\n")

def same(e, o):
    if e[0] == "to": return nsame(e[1], e[2], o["x"]) and vsame(e[1], e[3], o["v"])
    _, T, form, v, r = e
    if o["ok"] != r[0] or o["w"] != v: return False
    return r[1] == ["any"] or (r[0] == 0 and form != "t") or nsame(T, r[1], o["x"])

def corrupt(e):
    if e["op"] == "to": yield dict(e, v=["a", [e["v"]]])
    else:
        yield dict(e, ok=5)
        if e["v"][0] != e["p"][0] and e["v"][0] in "bids" and e["p"][0] in "bids": yield dict(e, ok=1 - e["ok"])
