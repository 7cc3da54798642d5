"""C06: values are independent; copies are deep, moves and swaps transfer."""
from lib import *
from gen import *
from checks import bulk
from checks.store import *

TECHNIQUE = "TLA+ store of values: TLC explores every history of copies, moves, swaps, constructions and assignments between all locations and checks independence/transfer/balance laws; every transition and histories replayed into the code, recorded random histories validated by TLC"
NOTE = ("Every transition (all pairs of locations, including parts of the same value) from every store reachable in a bounded number of steps from small stores, executed on freshly built values with the whole store compared and every "
        "allocation accounted for under AddressSanitizer; recorded random histories of up to 40 operations over 3 roots are accepted by TLC; copies, moves and assignments of values of up to 65,537 elements.")
ASSUMPTIONS = ["moving or swapping a value into its own part, and appending a value to a null part of itself, are excluded as meaningless"]

STARTS = [[["n"], ["a", [A, ["a", [B]]]]], [["o", [[[97], ["a", [A]]], [[98], B]]], ["s", [120] * 30]], [["a", [["o", [[[97], B]]], ["n"]]], ["n"]],
          [["o", [[[97], ["o", [[[97], ["o", []]]]]]]], ["b", 1]]]
OPS = ["cp", "mv", "sw", "cc", "mc", "pb", "pm", "nul"]

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"ops": ("cp", "lone", "mv", "as")})
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_store", "h_store.cpp", SAN))
        t1 = model(chk, "transfers", STARTS, OPS, [[97]], [0], [A], 2, 9 if q else 11)
        t2 = [] if q else model(chk, "roots3", [[["a", [A]], B, ["n"]], [["o", [[[97], B]]], ["a", []], ["n"]]], OPS + ["ix", "ik"], [[97]], [0, 1], [A], 2, 8)
        exe = fut.result()["h_store"]
    if q and len(t1) > 60000: t1 = chk.rng.sample(t1, 60000)
    judge(chk, "transfers", exe, cases(t1), same)
    if t2: judge(chk, "roots3", exe, cases(t2 if len(t2) < 400000 else chk.rng.sample(t2, 400000)), same)
    # histories made of consecutive transitions of the model
    bypre = {}
    for t in t1: bypre.setdefault(json.dumps(t[0]), []).append(t)
    hs = []
    for i in range(3000 if q else 30000):
        st = chk.rng.choice(STARTS)
        ops, exp = [], []
        pre = st
        for k in range(8):
            ts = bypre.get(json.dumps(pre))
            if not ts: break
            t = chk.rng.choice(ts)
            ops.append(t[1]); exp.append([t[2], t[3]]); pre = t[3]
        hs.append((step_line(st, ops), exp, str((st, ops))))
    judge(chk, "histories", exe, hs, same)
    histories(chk, "random", exe, 1500 if q else 10000, 3, 40)
    big()
