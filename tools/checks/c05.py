"""C05: Unicode codecs are exact and reject ill-formed text."""
from lib import *
from gen import *

TECHNIQUE = "TLA+ machines of UTF-8/16/32 checked exact and prefix-free by TLC; every enumerated unit sequence replayed into the codecs, parse and dump; recorded code point blocks and random unit sequences validated by TLC"
NOTE = ("All unit sequences over every boundary unit (31 byte classes up to 4 bytes plus a trailing unit, UTF-16 and UTF-32 classes) with decoded points, units consumed and failure; the same sequences inside strings, keys and comments "
        "through parse and inside strings and keys through dump; encoders over all code points (quick: every block edge and 0-0x2FFF) and refused numbers.")
ASSUMPTIONS = ["code units equal to the end-of-file marker of the character type (0xFFFF of char16_t, 0xFFFFFFFF of wchar_t/char32_t) cannot be told from the end by std streams; see KNOWN_FINDINGS"]

B8 = [0x01, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]
B8s = [0x41, 0x80, 0x90, 0xA0, 0xBF, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF8]
U16 = [0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE]
U32 = U16 + [0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF, -2]

def enum(chk, name, enc, units, n):
    r = run_tlc(chk, name, "MC_Unicode", defs="U == {" + ", ".join(map(str, units)) + "}\n", constants=dict(Enc=enc, Units="<- U", MaxLen=n, NumCfg="<- Cfg64"),
                invariants=["Exact", "Fun", "Scalars", "Emit"], emit=True)
    if r.violated: raise CheckError("specification: " + r.violated)
    return list(tlc_json(r.lines))

def spans(cps, enc):
    """cumulative numbers of units (from the standard lengths)"""
    p, n = [], 0
    for c in cps:
        n += (1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4) if enc == 8 else (1 if enc == 32 or c < 0x10000 else 2)
        p.append(n)
    return p

def same_dec(exp, obs): return obs == exp
def same_parse(exp, obs): return obs == {"x": "deser"} if exp == ["reject"] else obs == {"v": exp}
def same_dump(exp, obs): return obs == {"x": "ser"} if exp[0] == "fail" else obs == {"t": exp[1]}

def run(chk):
    q = chk.quick
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_codec", "h_codec.cpp", SAN))
        parts = [(8, "utf8", enum(chk, "utf8", 8, B8, 5)),
                 (8, "utf8-many", enum(chk, "utf8-many", 8, B8s, 6 if q else 8)),
                 (16, "utf16", enum(chk, "utf16", 16, U16, 3 if q else 5)),
                 (16, "utf16-wide", enum(chk, "utf16-wide", 16, U16 + [0xFFFF, 0x10000, 0x110000, 0x7FFFFFFF], 3 if q else 4)),
                 (8, "utf8-wide", enum(chk, "utf8-wide", 8, B8s + [0x141, 0x1C2, 0x180, 0x1BF, 0x2090, 0x10080, 0x7FFFFF41, -2], 4 if q else 5)),
                 (32, "utf32", enum(chk, "utf32", 32, U32, 3 if q else 4))]
        exe = fut.result()["h_codec"]
    for enc, name, cs in parts:
        if q and len(cs) > 60000:
            short = [c for c in cs if len(c[0]) <= 4]
            rest = [c for c in cs if len(c[0]) > 4]
            cs = short + chk.rng.sample(rest, min(len(rest), max(0, 60000 - len(short))))
        cases = []
        sel = {"utf8": ["8", "a8"], "utf8-many": ["8"], "utf16": ["16", "a16"], "utf16-wide": ["w"], "utf8-wide": ["w8", "U8"], "utf32": ["32", "W", "aw"]}[name]
        for i, (us, out, ok, *_) in enumerate(cs):
            for w in sel:
                cases.append((f"D {w} {cps(us)}", dict(c=out, p=spans(out, enc), ok=ok), str((w, us))))
        judge(chk, name + "-decode", exe, cases, same_dec)
        cases = []
        ts = {"utf8": "n", "utf8-many": "n", "utf16": "u", "utf16-wide": "", "utf8-wide": "", "utf32": "wU"}[name]
        for i, (us, out, ok, ins, inc, ink, d0, d1) in enumerate(cs):
            for t in ts:
                cases.append((f"P {t} s {cps(us)}", ins, str(us)))
                if i % 3 == 0 or len(us) < 3: cases.append((f"P {t} c {cps(us)}", inc, str(us)))
                if i % 3 == 1 or len(us) < 3: cases.append((f"P {t} k {cps(us)}", ink, str(us)))
        if cases: judge(chk, name + "-parse", exe, cases, same_parse)
        cases = []
        v = {"utf8": "n", "utf8-many": "n", "utf32": "w"}.get(name)
        if v:
            for i, (us, out, ok, ins, inc, ink, d0, d1) in enumerate(cs):
                t, e = "nw"[i % 2], i // 2 % 2
                for t, e in ([(t, e)] if len(us) > 2 else [("n", 0), ("n", 1), ("w", 0), ("w", 1)]):
                    cases.append((f"V {v} {t} {e} s {cps(us)}", d1 if e else d0, str(us)))
                    if i % 4 == 0 or len(us) < 3:
                        x = d1 if e else d0
                        cases.append((f"V {v} {t} {e} k {cps(us)}", x if x[0] == "fail" else ["t", [123] + x[1] + [58, 49, 125]], str(us)))
            judge(chk, name + "-dump", exe, cases, same_dump)
    # encoders over blocks, decoders over the code points of blocks and random unit sequences
    r = chk.rng
    if q:
        blocks = [(c, 256) for c in range(0, 0x3000, 256)] + [(b - 16, 32) for b in range(0x3000, 0x10000, 0x800)] + [(0xD700, 256), (0xD800, 256), (0xDF00, 512), (0xFF00, 512), (0x10000, 256)] \
                 + [(b - 8, 16) for b in range(0x20000, 0x110000, 0x10000)] + [(0x10FF00, 512), (0x110000, 64), (0x1FFFF0, 32), (0x3FFFFF0, 32), (0x7FFFFFF0, 15)]
    else:
        blocks = [(c, 512) for c in range(0, 0x112000, 512)] + [(0x1FFFF0, 32), (0x3FFFFF0, 32), (0x7FFFFFF0, 15)]
    ev, lines = [], []
    for a, n in blocks:
        for w, enc in (("8", 8), ("16", 16), ("w", 16), ("32", 32), ("W", 32), ("a8", 8), ("a16", 16), ("aw", 32), ("w8", 8)) if q else (("8", 8), ("16", 16), ("a16", 16), ("w8", 8), ("32", 32)):
            m = 0xFFFF - a if w in ("16", "a16") and a <= 0xFFFF < a + n else n   # the known finding U+FFFF
            ev.append(dict(k="e", enc=enc, **{"from": a}, n=m)); lines.append(f"E {w} {a} {m}")
    def mk(i, o): return dict(ev[i], u=o["u"])
    record(chk, "encode", exe, lines, mk, "Trace_Unicode", {}, lambda i: ev[i], corrupt)
    ev2, lines2 = [], []
    def enc_py(enc, c):
        s = chr(c).encode({8: "utf-8", 16: "utf-16-le", 32: "utf-32-le"}[enc])
        k = enc // 8
        return [int.from_bytes(s[i:i + k], "little") for i in range(0, len(s), k)]
    for a, n in blocks:
        cs = [c for c in range(a, a + n) if c < 0x110000 and not 0xD800 <= c < 0xE000]
        if not cs: continue
        for w, enc in (("8", 8), ("16", 16), ("32", 32), ("W", 32)):
            us = [u for c in cs if not (w == "16" and c == 0xFFFF) for u in enc_py(enc, c)]
            ev2.append(dict(k="d", enc=enc, u=us)); lines2.append(f"D {w} {cps(us)}")
    for i in range(3000 if q else 30000):
        enc, w = r.choice([(8, "8"), (16, "16"), (16, "w"), (32, "32"), (32, "W")])
        us = []
        for _ in range(r.randrange(1, 6)):
            us += enc_py(enc, r.choice([r.randrange(0x80), r.randrange(0x80, 0xD800), r.randrange(0xE000, 0xFFFF), r.randrange(0x10000, 0x110000)]))
        k = r.randrange(4)
        if k == 1: us.pop(r.randrange(len(us)))
        elif k == 2: j = r.randrange(len(us)); us[j] = r.randrange(256) if enc == 8 else r.randrange(0xD700, 0xE100) if enc == 16 else r.randrange(0x10F000, 0x111000)
        elif k == 3 and enc == 8: j = r.randrange(len(us)); us[j] ^= 1 << r.randrange(8)
        ev2.append(dict(k="d", enc=enc, u=us)); lines2.append(f"D {w} {cps(us)}")
    record(chk, "decode", exe, lines2, lambda i, o: dict(ev2[i], c=o["c"], ok=o["ok"]), "Trace_Unicode", {}, lambda i: ev2[i], corrupt)

def corrupt(e):
    if e["k"] == "e":
        u = e["u"]
        yield dict(e, u=u[:-1]); yield dict(e, u=u + [0]); yield dict(e, u=u[:len(u) // 2] + [u[len(u) // 2] + 1] + u[len(u) // 2 + 1:])
    else:
        yield dict(e, ok=1 - e["ok"]); yield dict(e, c=e["c"] + [65])
