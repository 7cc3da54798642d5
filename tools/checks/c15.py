"""C15: stream adapters carry every character once and in order."""
from lib import *

TECHNIQUE = "TLA+ state machine of an adapter stream (position over the supplied characters) explored by TLC over all operation sequences; every sequence replayed on the real streams, random long sequences recorded and validated by TLC"
NOTE = ("All sequences of 3 operations (28 input operations: single characters, peeks, blocks, delimited reads, ignore, iterators, buffer-level access; all output operations) over contents with NUL, high and blank characters, for narrow and wide streams and for adapters "
        "supplying single characters or blocks; random sequences of up to 30 operations, and of blocks of up to 4097 units on up to 9000, are validated against the specification.")
ASSUMPTIONS = ["a character equal to the traits' end-of-file value (char 0xFF) marks the end of an adapter's input by convention and is not used as content"]

def line(d, kind, src, ops):
    if d == "i": return f"i {kind} {cps(src)} {len(ops)} " + " ".join(f"{o} {n} {x}" for o, n, x in ops)
    return f"o {kind} {len(ops)} " + " ".join(f"{o} {cps(t)}" for o, t in ops)

IN1 = ["bump", "get", "getc", "it1", "peek", "sgetc", "snext", "ws"]
LONG = [64, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]
def long_ops(r):
    """block operations about the sizes of customary buffers"""
    ops = []
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(8)
        if k < 3: ops.append([r.choice(IN1), 0, 0])
        elif k < 7: ops.append([r.choice(["read", "sgetn", "read", "sgetn", "it", "ign"]), r.choice(LONG), 0])
        else: ops.append([r.choice(["gl", "gb"]), r.choice(LONG), r.choice([0, 98, 10, 232])])
    return ops

def random_ops(r, src):
    """proposes operations; tracks a lower bound of the position only to keep `gs' terminating"""
    ops = []
    for _ in range(r.randrange(1, 30)):
        k = r.randrange(10)
        if k < 4: ops.append([r.choice(IN1), 0, 0])
        elif k < 6: ops.append([r.choice(["read", "sgetn", "it", "ign"]), r.choice([0, 1, 2, 3, 5, 17]), 0])
        elif k < 8: ops.append([r.choice(["gl", "gb"]), r.choice([1, 2, 3, 6]), r.choice([0, 98, 10, 232])])
        elif k == 8: ops.append(["ignd", r.choice([0, 1, 3, 9]), r.choice([0, 98, 10, 232])])
        else: ops.append(["gs", 0, 0])       # NUL always comes
    return ops

def run(chk):
    q = chk.quick
    depth = 3 if q else 4
    exes = build(chk, ("h_adapt", "h_adapt.cpp", SAN), ("h_adapt_w", "h_adapt.cpp", SAN + ["-DWIDE"]))
    for nm, exe in exes.items():
        wide = nm.endswith("_w")
        hi = 0x20AC if wide else 232
        contents = [[97, 98, 0, hi, 98], [32, hi, 10, 97], [98, 98]] + ([[]] if not q else [])
        d = f"CT == {{{', '.join(tla(c) for c in contents)}}}\nDL == {{0, 98}}\nCH == {{0, 97, {hi}, {0x10FFFF if wide else 255}}}\n"
        r = run_tlc(chk, "sequences" + nm[7:], "MC_Adapters", defs=d, constants={"Contents": "<- CT", "Delims": "<- DL", "Chars": "<- CH", "Depth": depth}, emit=True)
        if r.violated: raise CheckError(r.violated)
        cases = []
        for t in tlc_json(r.lines):
            if t[0] == "i":
                ops = [h[0] for h in t[2]]
                exp = [h[1] for h in t[2]]
                for kind in "sb": cases.append((line("i", kind, t[1], ops), exp, f"{kind} {t[1]} {ops}"))
            else:
                for kind in "sb": cases.append((line("o", kind, None, t[2]), t[1], f"{kind} {t[2]}"))
        judge(chk, "table" + nm[7:], exe, cases, lambda e, o: e == o["r"])
        rr = chk.rng
        ev, lines = [], []
        for i in range(3000 if q else 30000):
            kind = rr.choice("sb")
            if rr.random() < .7:
                src = [rr.choice([97, 98, 99, 32, 10, 0, 127, 128, 232, 254] + ([0x20AC, 0x1F600, 255] if wide else [])) for _ in range(rr.randrange(40))]
                ops = random_ops(rr, src)
                ev.append(dict(d="i", s=src, ops=ops)); lines.append(line("i", kind, src, ops))
            else:
                ops = []
                for _ in range(rr.randrange(1, 30)):
                    o = rr.choice(["put", "sputc", "insc", "write", "sputn", "ins", "oit", "flush"])
                    t = [rr.choice([0, 10, 97, 98, 128, 254, 255]) for _ in range(1 if o in ("put", "sputc", "insc") else 0 if o == "flush" else rr.choice([0, 1, 2, 40]))]
                    ops.append([o, t])
                ev.append(dict(d="o", ops=ops)); lines.append(line("o", kind, None, ops))
        # blocks beyond the size of any buffer
        for i in range(60 if q else 400):
            kind = rr.choice("sb")
            if rr.random() < .6:
                src = [rr.choice([97, 98, 99, 32, 0, 127, 254] + ([0x20AC, 255] if wide else [])) for _ in range(rr.choice(LONG + [5000, 9000]))]
                ops = long_ops(rr)
                ev.append(dict(d="i", s=src, ops=ops)); lines.append(line("i", kind, src, ops))
            else:
                ops = []
                for _ in range(rr.randrange(1, 5)):
                    o = rr.choice(["put", "write", "sputn", "ins", "oit"])
                    ops.append([o, [rr.choice([10, 97, 98, 128, 255]) for _ in range(1 if o == "put" else rr.choice(LONG))]])
                ev.append(dict(d="o", ops=ops)); lines.append(line("o", kind, None, ops))
        record(chk, "random" + nm[7:], exe, lines, lambda i, o: dict(ev[i], **o), "Trace_Adapters", {}, lambda i: ev[i], corrupt)

def corrupt(e):
    if e["d"] == "o": yield dict(e, r=e["r"] + [1])
    elif e["r"]: yield dict(e, r=e["r"][:-1] + [[e["r"][-1][0] + [5], e["r"][-1][1], e["r"][-1][2]]])
