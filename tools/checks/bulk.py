"""Large values and texts (Bulk.tla), shared by the checks whose properties have no limit on size."""
from lib import *
from gen import *
from checks.writer import O, opts_tla

SHAPES = [["S", 97], ["S", 233], ["S", 10], ["S", 128512], ["K", 97], ["K", 8364], ["A", ["n"]], ["A", ["i", [1, 7]]], ["A", ["s", [97, 34]]], ["A", ["a", []]], ["M", 0]]
def start(chk, parts, opts=None, shapes=None, units="1w"):
    """builds and models in the background; the function returned runs the cases"""
    fl = (["-DALL_UNITS"] if "2" in units else []) + (["-DNO_TEXT"] if not {"dump", "back", "read", "odd"} & set(parts) else ["-DNO_OPS"])
    def work(): return build(chk, ("h_bulk", "h_bulk.cpp", SAN + fl))["h_bulk"], model(chk, shapes or SHAPES, opts or [O(0)], chk.quick)
    ex = ThreadPoolExecutor(1)
    fut = ex.submit(work)
    def finish():
        exe, rows = fut.result()
        ex.shutdown()
        run(chk, exe, rows, parts, chk.quick, units)
    return finish
def sizes(q): return [255, 256, 257, 4097, 65536, 65537] if q else [255, 256, 257, 1023, 1025, 4095, 4096, 4097, 8193, 16385, 32767, 32769, 65535, 65536, 65537, 131073]

def model(chk, shapes, opts, q):
    d = f"SH == {{{', '.join(tla(s) for s in shapes)}}}\nOP == {opts_tla(opts)}\nSM == {{0, 1, 2, 3, 7, 20}}\nSZ == {{{', '.join(map(str, sizes(q)))}}}\n"
    r = run_tlc(chk, "bulk", "MC_Bulk", defs=d, constants=dict(Shapes="<- SH", Opts="<- OP", Small="<- SM", Sizes="<- SZ", NumCfg="<- Cfg64", Ordered="TRUE"), invariants=["Laws", "Emit"], emit=True)
    if r.violated: raise CheckError("MC_Bulk: " + r.violated)
    return list(tlc_json(r.lines))

def expand(s, n):
    """the value a shape denotes (Val of Bulk.tla)"""
    if s[0] == "S": return ["s", [s[1]] * n]
    if s[0] == "K": return ["o", [[[s[1]] * n, ["n"]]]]
    if s[0] == "A": return ["a", [s[1]] * n]
    return ["o", [[cp("%06d" % i), ["i", int_dec(i)]] for i in range(s[1], n)]]
def flat(ps):
    t = []
    for p in ps:
        if p[0] == "r": t += p[2] * p[1]
        else:
            for i in range(p[1], p[2]): t += p[3] + cp("%06d" % i) + p[4] + cp(str(i)) + p[5]
    return t
def ptok(ps): return f"{len(ps)} " + " ".join(f"r {p[1]} {cps(p[2])}" if p[0] == "r" else f"m {p[1]} {p[2]} {cps(p[3])} {cps(p[4])} {cps(p[5])}" for p in ps)
def stok(s, n): return f"A {n} {polish(s[1])}" if s[0] == "A" else f"{s[0]} {s[1]} {n}"

def self_check(rows):
    """this module's expansion is the specification's"""
    for r in rows:
        if r[0] == "text" and r[5] and expand(r[1], r[2]) != r[5]: raise CheckError(f"bulk: expansion of {r[1:3]}")

def result(d, s, n):
    if d[0] == "is": return d[1]
    if d[0] == "shape": return expand(d[1], d[2] if len(d) > 2 else n)
    if d[0] == "elements":
        v = expand(d[1], d[2])[1]
        v = v if d[1][0] == "A" else [x[1] for x in v]
        return v[::-1] if d[3] else v
def short(o): return str(o)[:300]

def Same(*a): return list(a)   # expected outcomes are large: kept as a description, expanded for the comparison
def same(e, o):
    w, *a = e
    if w == "text": return isinstance(o, dict) and o.get("t") == flat(a[0])
    if w == "value": return isinstance(o, dict) and "v" in o and agree(expand(*a), o["v"])
    if w == "read":
        d, n = a
        if d[0] == "any": return True
        if d[0] == "no": return o == {"x": "deser"}
        return isinstance(o, dict) and "v" in o and agree(result(d, None, n), o["v"])
    if w == "ops":
        rs, s, n = a
        return isinstance(o, list) and len(o) == len(rs) and all(x == y if isinstance(x, int) else agree2(result(x, s, n), y) for x, y in zip(rs, o))
    return o == a[0]
def agree2(x, y): return x == y if x and isinstance(x[0], list) or x == [] else agree(x, y)

def run(chk, exe, rows, parts, q, units="1w", narrow_only=False):
    self_check(rows)
    r = chk.rng
    cases = []
    vw = lambda: "n" if narrow_only else r.choice("nw")
    for row in rows:
        if row[0] == "text":
            _, s, n, o, ps, _ = row
            if s[0] == "M" and n < s[1]: continue
            ot = f"{o[0]} {o[1]} {o[2]} "
            astral = s[0] in "SK" and s[1] > 65535
            if "dump" in parts:
                for sink in ("soaw" if not o[2] else "soa") if parts["dump"] == "all" else "s":
                    u = r.choice("1w")
                    v = vw()
                    cases.append((f"d {v}{u}{sink} {ot}{stok(s, n)}", Same("text", ps), f"dump to {sink} {v}{u}, options {o}, shape {s} size {n}"))
            if "back" in parts and o[1] in (32, 9):
                v, u = r.choice("nw"), r.choice("1w")
                cases.append((f"d {v}{u}t {ot}{stok(s, n)}", Same("value", s, n), f"round trip {v}{u}, options {o}, shape {s} size {n}"))
            if "read" in parts and o[1] in (32, 9):
                cs = [(u, k) for u in units for k in ("scfiwaA" if u == "1" else "sciwaA" if u == "w" else "scaA")] if parts["read"] == "all" else [(r.choice("1w"), r.choice("si"))]
                if q and len(cs) > 5: cs = r.sample(cs, 5)
                for u, k in cs:
                    v = vw()
                    cases.append((f"p {v}{u}{k} {ptok(ps)}", Same("value", s, n), f"parse {v}{u}{k}, options {o}, shape {s} size {n}"))
        elif row[0] == "odd" and "odd" in parts:
            _, k, n, ps, d = row
            src = "s" if k == "nul" else r.choice("sciaA")
            v, u = vw(), r.choice("1w")
            cases.append((f"p {v}{u}{src} {ptok(ps)}", Same("read", d, n), f"parse {v}{u}{src}: {k} of size {n}"))
        elif row[0] == "ops":
            _, s, n, fs = row
            for op, rs in fs:
                if op not in parts.get("ops", ()) or n == 0 and op in ("have",): continue
                v = vw()
                cases.append((f"o {v} {op} {stok(s, n)}", Same("ops", rs, s, n), f"{op} of shape {s} size {n} ({v})"))
        elif row[0] == "cmp" and "cmp" in parts:
            _, s, n, m, six = row
            if n > 20 and m > 20 and abs(n - m) > 1 and r.random() < .7: continue
            v = vw()
            cases.append((f"c {v} {stok(s, n)} {stok(s, m)}", Same("cmp", six), f"compare shape {s} sizes {n} {m} ({v})"))
    judge(chk, "bulk", exe, cases, same)
