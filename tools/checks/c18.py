"""C18: numbers keep their kind and value."""
from lib import *
from gen import *
from checks.writer import *
from checks import c02
import re

TECHNIQUE = "TLA+ decimal arithmetic (exact integers, correctly rounded %g/%f/%e formatting); TLC enumerates numerals with values, replayed into the parser; recorded dumps of exact floats validated by TLC"
NOTE = ("Numerals over digit alphabets around the 64-bit and 32-bit limits, exponent forms up to 6 symbols, exponents about every power of two, random numerals, numerals of every shape after one of every other; dumps of curated and random floats (exact decimal expansion) in every notation and precision 0-25 must be the "
        "correctly rounded text. Parsed floats are compared to 2e-15 relative (single precision 1e-5). Values over 8-, 16-, 32- and 64-bit signed and unsigned integers with single, double and extended floats read and print numerals of their own ranges.")
ASSUMPTIONS = ["literals within 1e-17 (relative) of the rounding threshold of the largest float, below 1e-300 and of more than 4000 digits are not judged", "the sign of zero is not observed"]
FLT = [0.5, 0.25, 1.5, 2.5, 0.125, 0.375, 1e-5, 1e-4, 0.0001234565, 123456.5, 1234567.5, 999999.5, 99999.95, 0.1, 0.7, 1 / 3, 9.5, 9.995, 0.9999995, 9.9999995, 1e22, 1.5e300, 2.5e-250, 2.0**63, 2.0**64, 2.0**62 + 1024, -2.0**63,
       -0.5, -9.5, -1e19, 1e18, 9007199254740993.0, 4503599627370497.5, 0.000030517578125, 7.0e-10, 1e15 + 0.5, 3.14159265358979, 5e-324 * 2**60, 12345.678, 1e3 + 2**-30]
SHAPES = ["0", "-0", "+0", "1", "-1", "+1", "7", "-12", "+12", "0.5", "-0.5", "+0.5", "-3.25", "+3.25", "1e2", "-1e2", "+1e2", "1.5e-2", "-1.5E+2", "+4e1", "99999999999999999999", "-99999999999999999999", "99999999999999999999.5", "9223372036854775807", "-9223372036854775808",
          "2147483647", "-2147483648", "1e308", "1e309", "-1e-300"]
INTS = [0, 1, -1, 7, -10, 10**9, 2**31 - 1, -2**31, 2**31, 2**63 - 1, -2**63, -2**63 + 1, 10**18]

def run(chk):
    q = chk.quick
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_text", "h_text.cpp", SAN), ("h_num", "h_num.cpp", SAN))
        # numerals, 64 bit and 32 bit
        parts = []
        for cfg, vt, lim, tol in (("Cfg64", "nn", ["922337203685477580", "92233720368547758", "1844674407370955161", "999999999999999999"], 2e-15),
                                  ("Cfg32", "in", ["214748364", "21474836", "429496729", "99999999"], 1e-5)):
            starts = [s + l for s in ("", "-", "+") for l in lim]
            parts.append((vt, tol, "limits-" + cfg, c02.enum(chk, "limits-" + cfg, list("0156789") + [".", "e", ".0", "e5", "e-3"], 3, starts, ["", "]"], cfg)))
            parts.append((vt, tol, "forms-" + cfg, c02.enum(chk, "forms-" + cfg, list("-+0129.eE") + ["00", "05"], 5 if q else 6, ["", "[1,"], ["", "]"], cfg)))
            ex_ = ["1e30", "1e-30", "1.7e30", "17e29", "0.17e31", "1.8e30", "9.9e30", "123456789e29", "2e3", "0.00001e31", "-1e30", "-5.5E-29"] if cfg == "Cfg64" else ["1e3", "3.4e3", "34e3", "0.34e3", "3.5e3", "9e3", "1e-3", "-1e3", "-3.5e3"]
            parts.append((vt, tol, "exponents-" + cfg, c02.enum(chk, "exponents-" + cfg, list("0123456789"), 2, ex_, [""], cfg)))
        exe, num = fut.result()["h_text"], fut.result()["h_num"]
    n = 0
    for vt, tol, name, texts in parts:
        cases = []
        for t, exp in texts:
            if exp != ["reject"] and not sane32(exp, vt): continue
            n += 1
            cases.append((f"p{vt} {PRIORS[n % len(PRIORS)]} {cps(t)}", exp, txt(t)))
        judge(chk, name, exe, cases, lambda e, o, tol=tol: (o == {"x": "deser"}) if e == ["reject"] else ("v" in o and agree(e, o["v"], tol)))
    r = chk.rng
    # random numerals
    ts = []
    while len(ts) < (2000 if q else 20000):
        ts.append(dnum(r) if r.random() < .7 else dnum(r) + r.choice(["0", "1", ".", "e", "5", ",", "]", " ", "x", "-", "+", "\u0131", "\u0130", "\u0665"]))
    for k in (17, 20, 30, 100, 250): ts += ["1" * k + ".5", "0." + "3" * k, "-" + "9" * k + "e-%d" % k, "1." + "0" * k + "1", "7" * k + "e2", "1." + "7976931348623157" * (k // 16 + 1),  "0." + "0" * k + "1", "0." + "0" * k + "25e+%d" % k]
    ts += ["1" * 310 + "e-305", "0." + "0" * 330 + "1e331", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "17976931348623157e292", "1" + "0" * 308, "1" + "0" * 309, "1" + "0" * 308 + ".0", "1" + "0" * 309 + ".0",
           "0.1e309", "0.1e310", "0.00001797693134862315e313", "-1.7976931348623157E+308", "-1.798E308", "1e309", "1e99999", "1e4294967296", "1e18446744073709551616", "1e-99999", "0.0e99999", "0.0e-5", "1e-4294967296", "9e307", "9.9e-299"]
    # exponents around every power of two
    for k in (8, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 128):
        for d in (-2, -1, 0, 1, 5): ts += [f"{m}e{sg}{2 ** k + d}" for m in (["1", "-2.5"] if q else ["1", "-2.5", "0.001", "70"]) for sg in ("", "-")]
    lines = [f"pnn n {cps(cp(t))}" for t in ts]
    record(chk, "numerals", exe, lines, lambda i, o: dict(t=cp(ts[i]), **o), "Trace_Reader", dict(NumCfg="<- Cfg64"), lambda i: ts[i], c02.corrupt)
    # 32 bit
    t32 = []
    while len(t32) < (800 if q else 8000):
        k = r.randrange(4)
        if k == 0: t = str(r.choice([-1, 1]) * (2**31 + r.randrange(-3, 4)))
        elif k == 1: t = str(r.randrange(-2**33, 2**33) >> r.randrange(30))
        elif k == 2: t = "%d.%d" % (r.randrange(1000), r.randrange(100000))
        else: t = "%d.%de%d" % (r.randrange(1, 10), r.randrange(10000), r.randrange(1, 37))
        t32.append(t)
    record(chk, "numerals32", exe, [f"pin n {cps(cp(t))}" for t in t32], lambda i, o: dict(t=cp(t32[i]), **o), "Trace_Reader",
           dict(NumCfg="<- Cfg32", FTolHi="<- Loose"), lambda i: t32[i], defs="Loose == 1000\n")
    # one numeral after the other: nothing of one remains in the next
    ps = [f"{o}{x}{sep}{y}{c}" for x in SHAPES for y in SHAPES for o, sep, c in (("[", ",", "]"), ('{"a":', ' , "b" :', "}"))]
    for _ in range(500 if q else 8000):
        k = [r.choice(SHAPES) if r.random() < .6 else dnum(r) for _ in range(r.randrange(3, 9))]
        ps.append("[" + ",".join("[" + x + "]" if r.random() < .2 else '{"k":' + x + "}" if r.random() < .1 else x for x in k) + "]")
    for vt, nc, loose in (("nn", "Cfg64", {}), ("in", "Cfg32", dict(FTolHi="<- Loose"))):
        tt = ps if nc == "Cfg64" else [t for t in ps if not re.search(r"9{15}|\d{12}|e-?3\d\d|\d{5}\.|[eE][-+]?[3-9]\d", t)]
        record(chk, "sequences-" + nc, exe, [f"p{vt} n {cps(cp(t))}" for t in tt], lambda i, o: dict(t=cp(tt[i]), **o), "Trace_Reader", dict(NumCfg="<- " + nc, **loose), lambda i: tt[i], c02.corrupt, defs="Loose == 1000\n" if loose else "")
    # formatting
    vs, os_ = [], []
    for f in FLT:
        for fmt in range(4):
            for p in ((0, 1, 2, 3, 6, 9, 17) if q else range(26)):
                vs.append(["d", flt_dec(f)]); os_.append([0, 32, 0, p, fmt])
    for i in range(2500 if q else 30000):
        f = rflt(r)
        if r.random() < .3:   # decimal ties
            f = (r.randrange(1, 10**6) * 2 + 1) / 2**r.randrange(1, 12)
        vs.append(["d", flt_dec(f)]); os_.append([0, 32, 0, r.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 9, 15, 16, 17, 20]), r.randrange(4)])
    some = [["d", flt_dec(f)] for f in FLT[:12] + [3.0, -7.0, 0.0, 1e300, 2.0**62, 2.0**63]] + [["i", int_dec(i)] for i in INTS]
    for i in range(400 if q else 4000):
        k = [r.choice(some) for _ in range(r.randrange(2, 5))]
        vs.append(["a", k] if i % 3 else ["o", [[[97 + j], x] for j, x in enumerate(k)]]); os_.append([0, 32, 0, r.choice([0, 1, 3, 6, 6, 17]), r.randrange(4)])
    for i in INTS + [rint(r) for _ in range(300)]: vs.append(["i", int_dec(i)]); os_.append([0, 32, 0, 6, 0])
    nf = [["d", [8, 0]], ["d", [-8, 0]], ["d", [9, 0]]]
    for v in nf + [["a", [["i", [1, 1]], v]] for v in nf] + [["o", [[[97], v]]] for v in nf]:
        for fmt in range(4): vs.append(v); os_.append([0, 32, 0, 6, fmt]); vs.append(v); os_.append([2, 32, 0, 3, fmt])
    lines = [line("d", VT[i % 4], os_[i], vs[i], os_[i][3:] != [6, 0] or i % 3 == 0) for i in range(len(vs))]
    record(chk, "formatting", exe, lines, lambda i, o: dict(k="d", v=vs[i], o=os_[i], **o), "Trace_Writer", dict(NumCfg="<- Cfg64"), lambda i: (os_[i], vs[i]), corrupt)
    # single precision
    import struct
    v32, o32 = [], []
    for i in range(800 if q else 8000):
        f = struct.unpack("f", struct.pack("f", rflt(r) if r.random() < .8 else r.uniform(-1, 1)))[0]
        if f != f or abs(f) > 3e38: continue
        v32.append(["d", flt_dec(f)]); o32.append([0, 32, 0, r.choice([0, 1, 3, 6, 6, 9, 12]), r.randrange(4)])
    for i in [0, 1, -1, 2**31 - 1, -2**31]: v32.append(["i", int_dec(i)]); o32.append([0, 32, 0, 6, 0])
    record(chk, "formatting32", exe, [line("d", "in", o32[i], v32[i]) for i in range(len(v32))], lambda i, o: dict(k="d", v=v32[i], o=o32[i], **o),
           "Trace_Writer", dict(NumCfg="<- Cfg32"), lambda i: (o32[i], v32[i]), corrupt)

    for c in WIDTHS: widths(chk, num, *c)

# value types with other number types: letter of h_num, bits, signed, single precision, extended precision
WIDTHS = [("a", 8, True, False, True), ("b", 16, True, True, False), ("c", 8, False, False, False), ("d", 32, False, True, False), ("e", 64, False, False, True)]
def cfg_tla(bits, signed, single, ext):
    hi, lo = (2**(bits - 1) - 1, 2**(bits - 1)) if signed else (2**bits - 1, 0)
    t = lambda x: "<<" + ",".join(str(x)) + ">>"
    fl = "femax |-> 4932, fmax |-> <<1,1,8,9,7,3,1,4,9,5,3,5,7,2,3,1,7,6,5,0>>, femin |-> -4970" if ext else "femax |-> 38, fmax |-> Cfg32.fmax, femin |-> -50" if single else "femax |-> 308, fmax |-> Cfg64.fmax, femin |-> -330"
    return f"NC == [imax |-> {t(hi)}, imin |-> {t(lo)}, {fl}]\n" + ("Loose == 1000\n" if single else "")
def widths(chk, exe, c, bits, signed, single, ext):
    q, r = chk.quick, chk.rng
    df = cfg_tla(bits, signed, single, ext)
    cfg = dict(NumCfg="<- NC", **(dict(FTolHi="<- Loose") if single else {}))
    import struct
    lims = sorted({0, 1, 9, 10, 48, 65, 99, 127, 128, 255, 256, 1000} | {2**b + k for b in (7, 8, 15, 16, 31, 32, 63, 64, bits, bits - 1) for k in (-2, -1, 0, 1, 2)} | {2**bits // 10 * 10 + k for k in range(10)} | {2**(bits - 1) // 10 * 10 + k for k in range(10)} | {2**bits * 10, 2**bits * 10 + 9})
    ts = [s + str(n) + e for n in lims for s in ("", "-", "+") for e in ("", ".5", "e1", ".0e-2")]
    ts += [s + "%d" % d + e for d in range(10) for s in ("-", "") for e in ("", "0", ".25", "e2")]
    ts += ["-0", "-0.5", "-00", "--1", "-", "[-1,2]", '{"a":-1}', "[1,-1.5]"]
    if ext: ts += ["1e4000", "-2.5e4900", "1e4899", "1.5e-4000", "1e5000", "9e4950", "1e309", "123456789012345678901e300", "1" + "0" * 400]
    if single: ts += ["3.4e38", "3.5e38", "1e39", "1" + "0" * 38, "4" + "0" * 38, "0." + "0" * 30 + "1e+40"]
    else: ts += ["1e300", "1.5e-250"]
    for _ in range(300 if q else 5000):
        k = r.randrange(3)
        ts.append(str(r.randrange(-2**(bits + 1), 2**(bits + 1)) >> r.randrange(bits)) if k < 2 else "%s%d.%de%d" % (r.choice(["", "-"]), r.randrange(1, 400), r.randrange(10000), r.randrange(1, 30)))
    vs = [["i", int_dec(n)] for n in lims if n < 2**(bits - signed)] + ([["i", int_dec(-n)] for n in lims if n <= 2**(bits - 1)] if signed else []) + [["i", int_dec(n)] for n in range(0, 128, 1 if bits == 8 else 13)]
    os_ = [[r.choice([0, 0, 2]), 32, 0, 6, 0] for _ in vs]
    for f in FLT + [rflt(r) for _ in range(150 if q else 2000)]:
        if single:
            if abs(f) > 3e38 or 0 < abs(f) < 1e-37: continue
            f = struct.unpack("f", struct.pack("f", f))[0]
        vs.append(["d", flt_dec(f)]); os_.append([r.choice([0, 0, 3]), 32, 0, r.choice([0, 1, 3, 6, 6, 9, 12, 17]), r.randrange(4)])
    lines = [f"{c}{r.choice(['', 'w'])} p {cps(cp(t))}" for t in ts]
    record(chk, "numerals-" + c, exe, lines, lambda i, o: dict(t=cp(ts[i]), **o), "Trace_Reader", cfg, lambda i: f"h_num type {c}: {ts[i]}", c02.corrupt, defs=df)
    lines = [f"{c}{r.choice(['', 'w'])} d {' '.join(map(str, o))} {v[0]} {dec_int(v[1]) if v[0] == 'i' else dec_flt(v[1]).hex()}" for v, o in zip(vs, os_)]
    record(chk, "formatting-" + c, exe, lines, lambda i, o: dict(k="d", v=["a", [vs[i]]] if os_[i][0] else vs[i], o=os_[i], **o), "Trace_Writer", dict(NumCfg="<- NC"), lambda i: f"h_num type {c}: {(os_[i], vs[i])}", corrupt, defs=cfg_tla(bits, signed, False, ext))

def sane32(v, vt):
    """no subnormal results"""
    if v[0] == "d" and v[1][0]: return v[1][1] > (-37 if vt[0] == "i" else -300)
    if v[0] == "a": return all(sane32(x, vt) for x in v[1])
    return True

def corrupt(e):
    if "t" in e:
        t = e["t"]
        yield dict(e, t=t + [48])
        yield dict(e, t=t[:-1])
        yield dict(e, t=[43] + t)
        yield dict(e, t=[t[0] + 1] + t[1:])
