"""Seeded random documents and values shared by the checks (the specification judges; these only propose)."""
from lib import *

WS = [" ", "\n", "\t", "\r", "  ", "\r\n", ""]
STRCH = ["a", "b", "Z", "0", " ", "/", "\x7f", "\u00e9", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ue000", "\uffef", "\U00010000", "\U0001F600", "\U0010FFFF", "\u0172", "\u0130"]

VALCH = STRCH + ["\x00", "\x01", "\x1f", "\n", "\t", "\"", "\\", "\b", "\f", "\r"]

def rkey(r):
    if r.random() < .1: return rstr(r, 4)
    return r.choice(["a", "b", "aa", "ab", "k", "", "key", "\u00e9", "z" * 20])

def rstr(r, n=8):
    return "".join(r.choice(VALCH) for _ in range(r.randrange(n)))

def rint(r):
    k = r.randrange(6)
    if k == 0: return r.choice([0, 1, -1, 9, 10, -10, 99, 100])
    if k == 1: return r.choice([2**31 - 1, -2**31, 2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, -2**63, -2**63 + 1])
    if k == 2: return r.randrange(-1000, 1000)
    return r.randrange(-2**63, 2**63) >> r.randrange(63)

def rflt(r):
    k = r.randrange(7)
    if k == 0: return r.choice([0.0, 1.0, -1.0, 0.5, 0.1, 1.5, 100.0, 1e5, 1e6, 1e15, 1e16, 1e17, 1e100, 1e-5, 1e-4, 0.001, 123456.0, 1234567.0, 0.1234567, 2.0**53, 2.0**62, 2.0**63, 2.0**64])
    if k == 1: return float(r.randrange(-10**6, 10**6))
    if k == 2: return r.randrange(-10**9, 10**9) / 10**r.randrange(1, 9)
    if k == 3: return r.randrange(1, 2**20) / 2**r.randrange(1, 20)
    if k == 4: return float("%de%d" % (r.randrange(1, 10**r.randrange(1, 7)), r.randrange(-30, 31)))
    return r.uniform(-1, 1) * 10.0**r.randrange(-8, 20)

def rvalue(r, depth=3, floats=True):
    k = r.randrange(9 if depth > 0 else 6)
    if k == 0: return ["n"]
    if k == 1: return ["b", r.randrange(2)]
    if k == 2: return ["i", int_dec(rint(r))]
    if k == 3: return ["d", flt_dec(rflt(r))] if floats else ["i", int_dec(r.randrange(100))]
    if k in (4, 5): return ["s", cp(rstr(r))]
    if k == 6 or k == 7 and r.randrange(2): return ["a", [rvalue(r, depth - 1, floats) for _ in range(r.randrange(5))]]
    m = {}
    for _ in range(r.randrange(5)): m[tuple(cp(rkey(r)))] = rvalue(r, depth - 1, floats)
    return ["o", [[list(k), m[k]] for k in sorted(m)]]

# ---- documents (texts), written with the freedoms of the language

def dws(r):
    k = r.randrange(12)
    if k < 7: return r.choice(WS[:1] + [""] * 5)
    if k < 10: return r.choice(WS)
    if k == 10: return r.choice(["//c\n", "// [1, {\n", "//\n", "//\r", "//x*/\n"])
    return r.choice(["/**/", "/* c */", "/***/", "/*/*/", "/*\n//*/", "/* \" */"])

def dstr(r):
    o = '"'
    for _ in range(r.randrange(7)):
        k = r.randrange(6)
        if k == 0: o += "\\" + r.choice('"\\/bfnrt')
        elif k == 1:
            c = r.choice([0x41, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0, 0x1f, 0x22, 0x5c, r.randrange(0xd800)])
            o += "\\u" + r.choice(["%04x", "%04X"]) % c
        elif k == 2:
            c = r.choice([0x10000, 0x10ffff, 0x1f600, r.randrange(0x10000, 0x110000)]) - 0x10000
            o += "\\u%04X\\u%04x" % (0xd800 + (c >> 10), 0xdc00 + (c & 1023))
        else: o += r.choice(STRCH)
    return o + '"'

def dnum(r):
    k = r.randrange(8)
    s = r.choice(["", "", "-", "+"])
    if k < 3: return s + str(abs(rint(r)))
    if k == 3: return s + r.choice(["0", "0.0", "0.5", "1.0", "10.25", "1e+05", "1e5", "1E-3", "12.5e2", "1.e", "1e05", "0e1", "00", ".5", "1."])
    if k == 4: return s + "%d.%d" % (r.randrange(1000), r.randrange(100000))
    if k == 5: return s + "%d.%de%s%d" % (r.randrange(10), r.randrange(10**r.randrange(1, 12)), r.choice(["", "+", "-"]), r.randrange(1, 300))
    if k == 6: return s + "%de%s%d" % (r.randrange(1, 10000), r.choice(["", "+", "-", "+0", "-0"]), r.randrange(1, 250))
    return s + "".join(r.choice("0123456789") for _ in range(r.randrange(1, 22)))

def rdoc(r, depth=4):
    k = r.randrange(11 if depth > 0 else 6)
    if k < 2: v = r.choice(["true", "false", "null"])
    elif k < 4: v = dnum(r)
    elif k < 6: v = dstr(r)
    elif k < 8:
        n = r.randrange(5)
        v = "[" + dws(r) + ",".join(rdoc(r, depth - 1) for _ in range(n)) + (r.choice(["", "", ","]) if n else "") + dws(r) + "]"
    else:
        n = r.randrange(5)
        v = "{" + dws(r) + ",".join(dws(r) + r.choice([dstr(r), '"a"', '"b"', '"a"']) + dws(r) + ":" + rdoc(r, depth - 1) for _ in range(n)) + (r.choice(["", "", ","]) if n else "") + dws(r) + "}"
    return dws(r) + v + dws(r)

def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        i = r.randrange(len(t) + 1)
        if k == 0 and t: del t[i % len(t)]
        elif k == 1: t.insert(i, r.choice(list('{}[],:"\\/*0189.eE+-tfn \n\x00\x01x') + ["\u0130", "\u0172", "\u2028", "\ufeff"]))
        elif k == 2 and t: t[i % len(t)] = r.choice(list('{}[],:"\\/*019.eE+-tfn \n') + ["\u0130"])
        elif k == 3: t = t[:i]
        elif t:
            j = r.randrange(len(t)); i %= len(t)
            t[i], t[j] = t[j], t[i]
    return "".join(t)

PRIORS = ["n", "t", "i 7", "d 0x1p-1", "s 2 120 121", "a 2 i 1 s 1 97", "o 1 1 97 a 1 i 3", "a 0", "o 0"]

def nosurr(s):
    return "".join(c for c in s if not 0xD800 <= ord(c) < 0xE000)

def flt17(d):
    """the decimal form with 17 significant digits, as harnesses report floats"""
    from decimal import Decimal
    if d[0] in (0, 9, 8, -8): return d
    f = dec_flt(d)
    t = Decimal("%.16e" % abs(f)).as_tuple()
    g, e = list(t.digits), t.exponent + len(t.digits) - 1
    while len(g) > 1 and g[-1] == 0: g.pop()
    return [d[0], e] + g

def obsform(v):
    if v[0] == "d": return ["d", flt17(v[1])]
    if v[0] == "a": return ["a", [obsform(x) for x in v[1]]]
    if v[0] == "o": return ["o", [[k, obsform(x)] for k, x in v[1]]]
    return v
