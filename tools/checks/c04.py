"""C04: dump writes the one canonical text of a value."""
from lib import *
from gen import *
from checks import bulk
from checks.writer import *

TECHNIQUE = "TLA+ specification of the writer as a layout and as a token machine; TLC enumerates values x options with their texts, replayed into the code; recorded dumps validated by TLC"
NOTE = ("A leaf inside up to 65,600 indented layers, line by line; all values of depth <= 2 (parts of depth 3-4) over small leaves and keys under all indents, escapes and character widths, all code points (quick: all below U+0800 and "
        "every block edge) inside strings and keys, and random values: the text of the code must be the text of the specification. TLC checks machine = layout and that the texts are in the reader's language; values of up to 65,537 elements.")
ASSUMPTIONS = ["the indent character is a non-NUL ASCII character"]

LEAVES = [["n"], ["b", 1], ["b", 0], ["i", [-1, 1, 2]], ["d", [1, 0, 1, 5]], ["s", []], ["s", [34, 10, 233]]]
SMALL = [["n"], ["i", [1, 7]], ["s", [97]]]

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"dump": "all"}, [O(0), O(2, 9, 1), O(3, 45)])
    opts = [O(s, c, e) for s in (0, 1, 2, 3, 4) for c in (32, 9) for e in (0, 1) if s or c == 32]
    few = [O(0), O(2, 9, 1), O(3, 45)]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_text", "h_text.cpp", SAN), ("h_depth", "h_depth.cpp", ["-O2"]))
        rd = "op.ch \\in {32, 9} \\/ op.step = 0"
        parts = [("layout", model(chk, "layout", structures(LEAVES, SMALL, 1 if q else 2), few, rd)),
                 ("options", model(chk, "options", structures(LEAVES[:1] + LEAVES[-1:], SMALL[:1], 0 if q else 1), opts + [O(s, c, 0) for s in (5, 7, 16, 255) for c in (32, 120)], rd))]
        ranges = [(0, 0x800)] + [(b - 8, b + 8) for b in (0x1000, 0x2028, 0xD7F8, 0xE008, 0x10000, 0x20000, 0x100000, 0x10FFF8)] + [(0xFF00, 0x10000)]
        if not q: ranges = [(0, 0x10000), (0x10000, 0x12000), (0x1F000, 0x20000), (0x10FF00, 0x110000)]
        strs = []
        for a, b in ranges:
            cs = [c for c in range(a, b) if not 0xD800 <= c < 0xE000]
            strs += [cs[i:i + 16] for i in range(0, len(cs), 16)]
        # single characters too, in value and in key position
        ones = list(range(0x100)) + [0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0x10000, 0x1F600, 0x10FFFF]
        d = "V == {VStr(s) : s \\in SS} \\cup {VObj(<<<<s, VNull>>>>) : s \\in OO} \\cup {VArr(<<VStr(s), VStr(<<120>> \\o s)>>) : s \\in OO}\n"
        d = f"SS == {vals_tla(strs)}\nOO == {vals_tla([[c] for c in ones])}\n" + d
        parts.append(("characters", model(chk, "characters", d, [O(0), O(0, 32, 1)])))
        # values that no text can carry
        bad = [["s", [0xD800]], ["s", [97, 0xDC00, 98]], ["s", [0xDFFF]], ["a", [["i", [1, 1]], ["s", [0xDBFF, 120]]]], ["o", [[[0xD83D], ["n"]]]]]
        exe, hd = (fut.result()[k] for k in ("h_text", "h_depth"))
    n = 0
    for name, cs in parts:
        cases = []
        for v, o, exp, _ in cs:
            vts = VT if name == "characters" else [VT[n % 4]] if q else VT
            n += 1
            for vt in vts: cases.append((line("d", vt, o, v, n % 2 == 0), exp, str((vt, o, v))))
        judge(chk, name, exe, cases, same_text)
    r = chk.rng
    vs, os_, lines = [], [], []
    for i in range(4000 if q else 20000):
        v = rvalue(r, r.choice([1, 2, 3, 4]), floats=False)
        o = rand_opts(r, False)
        if r.random() < .1: o[1] = r.choice([45, 120, 46, 48, 34])
        vs.append(v); os_.append(o)
    dp = [["n"], ["i", [1, 7]]]
    for k in range(60): dp.append(["a", [dp[-2]]] if k % 3 else ["o", [[[97], dp[-2]]]])
    for v in dp[2:]: vs.append(v); os_.append([r.choice([0, 1, 3, 4]), 32, 0, 6, 0])
    for v in bad: vs.append(v); os_.append([0, 32, 0, 6, 0]); vs.append(v); os_.append([2, 32, 1, 6, 0])
    nb = len(vs) - 2 * len(bad)
    for i, (v, o) in enumerate(zip(vs, os_)):
        vt = VT[i % 4] if i < nb else "ww"   # wide values hold unpaired surrogates as such
        lines.append(line("d", vt, o, v, i % 2 == 0))
    record(chk, "random", exe, lines, lambda i, o: dict(k="d", v=vs[i], o=os_[i], **o), "Trace_Writer", dict(NumCfg="<- Cfg64"),
           lambda i: (os_[i], vs[i]), corrupt)
    deep(chk, exe, "d", q)
    abyss(chk, hd, q)
    big()

def abyss(chk, exe, q):
    """a leaf inside tens of thousands of layers: line by line"""
    lines, info = [], []
    for N, step, ch in [(65600, 1, 32), (33000, 2, 9), (300, 255, 32)] + ([] if q else [(131100, 1, 32), (66000, 3, 9), (40000, 4, 32)]):
        want = {i for b in (0, 255, 256, 16384, 21845, 32767, 32768, 65535, 65536, 65537, 131072, N) for a in range(-3, 4) for i in (b + a, 2 * N - b + a) if 0 <= i <= 2 * N}
        want |= set(range(0, 2 * N, 2 * N // 300))
        lines.append(f"{N} {step} {ch} {cps(sorted(want))}"); info.append((N, step, ch))
    obs = [execute(chk, exe, [l], timeout=400)[0] for l in lines]
    for (N, step, ch), line, o in zip(info, lines, obs):
        if isinstance(o, Crash): chk.violation("abyss", case=line[:200], info=f"{N} layers, step {step}", observed=str(o)); continue
        ev = [[N, step, ch] + x for x in o["lines"]] + [[N, step, ch, o["total"]]]
        rej, _ = validate(chk, f"abyss-{N}", "Trace_Depth", ev, dict(NumCfg="<- Cfg64"), shards=1)
        for k in rej: chk.violation("abyss", case=line[:200], info=f"{N} layers, step {step}", observed=ev[k])
        if "x" in o or len(ev) != line.count(" ") - 2: chk.violation("abyss", case=line[:200], info=f"{N} layers, step {step}", observed=str(o)[-200:])
        chk.traces += len(ev)
        chk.part(f"abyss-{N}", lines=len(ev))
        if not chk.violations: selftest(chk, f"abyss-{N}", "Trace_Depth", [e[:4] + [e[4] + 1] + e[5:] for e in ev[:-1:40]] + [ev[-1][:3] + [7]], dict(NumCfg="<- Cfg64"))

def corrupt(e):
    if "t" in e:
        t = e["t"]
        yield dict(e, t=t + [32])
        yield dict(e, t=t[:-1])
        yield dict(e, t=[32] + t)
        i = len(t) // 2
        yield dict(e, t=t[:i] + [t[i] + 1] + t[i + 1:])
