"""C01: dumping and parsing back is lossless."""
from lib import *
from gen import *
from checks import bulk
from checks.writer import *

TECHNIQUE = "TLC checks Read(Write(v, options)) = v with floats rounded on the TLA+ reader and writer; the same values, and random ones validated as recorded traces, are dumped and parsed back by the code"
NOTE = ("All values of depth <= 2 (parts of depth 3-4) with every node type under every indent, escape mode and character width, strings over all code point blocks, floats over all notations and precisions, "
        "and random values; only the value read back is judged, against the rounding of the specification (floats to 2e-15); values and texts of up to 65,537 elements, keys and characters (MC_Bulk).")
ASSUMPTIONS = ["indentation uses white space (space or tab)", "floats between 1e-290 and 1e300 in magnitude, or zero"]

LEAVES = [["n"], ["b", 1], ["b", 0], ["i", [-1, 1, 2]], ["d", [1, 0, 1, 5]], ["d", [-1, 1, 3]], ["s", []], ["s", [34, 10, 233]]]
FLT = [0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1 / 3, 2 / 3, 99.5, 0.95, 0.095, 999999.5, 9999995.0, 1e15, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23, 123456789.125, 2.0**62, 2.0**63, -2.0**63, 2.0**64,
       1e-4, 1e-5, 9.9999e-5, 1e-7, 1e100, 1e-100, 3.0e200, 1.5e-200, 0.001, 12345678.9, 1e6 - 0.5, 1e16 + 2, 4.35, 2.675, 1.005, 0.3, 1e5 + 0.1]
INTS = [0, 1, -1, 9, 10, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, 10**18, -10**18, 10**18 - 1]

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"back": 1}, [O(0), O(2, 9, 1)])
    opts = [O(s, c, e) for s in (0, 1, 2, 4) for c in (32, 9) for e in (0, 1) if s or c == 32]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_text", "h_text.cpp", SAN))
        parts = [("layout", model(chk, "layout", structures(LEAVES, [["n"], ["i", [1, 7]]], 1 if q else 2), [O(0), O(2, 32, 1)])),
                 ("options", model(chk, "options", structures(LEAVES[:1] + LEAVES[-1:], [["n"]], 0 if q else 1), opts + [O(255, 9, 0)]))]
        ranges = [(0, 0x400)] + [(b - 8, b + 8) for b in (0x800, 0x1000, 0x2028, 0xD7F8, 0xE008, 0x10000, 0x20000, 0x100000, 0x10FFF8)] + [(0xFF80, 0xFFFF)]
        if not q: ranges = [(0, 0xFFFF), (0x10000, 0x12000), (0x1F000, 0x20000), (0x10FF00, 0x110000)]
        strs = []
        for a, b in ranges:
            cs = [c for c in range(a, b) if not 0xD800 <= c < 0xE000]
            strs += [cs[i:i + 16] for i in range(0, len(cs), 16)]
        parts.append(("characters", model(chk, "characters", f"SS == {vals_tla(strs)}\nV == {{VStr(s) : s \\in SS}} \\cup {{VObj(<<<<s, VStr(s)>>>>) : s \\in SS}}\n", [O(0), O(0, 32, 1)])))
        nums = [["d", flt_dec(f)] for f in FLT] + [["i", int_dec(i)] for i in INTS]
        fo = [O(0, 32, 0, p, f) for p in ((0, 1, 2, 5, 6, 15, 17) if q else range(0, 25)) for f in (0, 1, 2, 3)]
        parts.append(("numbers", model(chk, "numbers", f"V == {vals_tla(nums)}\n", fo)))
        exe = fut.result()["h_text"]
    n = 0
    for name, cs in parts:
        cases = []
        for v, o, w, exp in cs:
            n += 1
            for vt in (VT if name == "characters" else [VT[n % 4]] if q else VT):
                cases.append((line("r", vt, o, v, n % 2 == 0), exp, str((vt, o, v))))
        judge(chk, name, exe, cases, same_back)
    r = chk.rng
    vs, os_, lines = [], [], []
    for i in range(4000 if q else 40000):
        vs.append(rvalue(r, r.choice([1, 2, 3, 4]))); os_.append(rand_opts(r))
        lines.append(line("r", VT[i % 4], os_[-1], vs[-1], i % 2 == 0))
    record(chk, "random", exe, lines, lambda i, o: dict(k="r", v=vs[i], o=os_[i], **({"b": o["v"]} if "v" in o else o)), "Trace_Writer",
           dict(NumCfg="<- Cfg64"), lambda i: (os_[i], vs[i]), corrupt)
    deep(chk, exe, "r", q)
    big()

def corrupt(e):
    if "b" not in e: return
    b = e["b"]
    yield dict(e, b=["a", [b]])
    yield dict(e, b=["n"] if b != ["n"] else ["b", 0])
    if b[0] == "d" and b[1][0]: yield dict(e, b=["d", [b[1][0], b[1][1]] + [b[1][2] % 9 + 1] + b[1][3:]]); yield dict(e, b=["d", [-b[1][0]] + b[1][1:]])
    if b[0] in "aso" and b[1]: yield dict(e, b=[b[0], b[1][:-1]])
