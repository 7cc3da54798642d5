"""C07: container operations behave as a map / sequence / scalar algebra."""
from lib import *
from gen import *
from checks import bulk
from checks.store import *

TECHNIQUE = "TLA+ specification of the container operations over value trees: TLC applies every operation to every location of every reachable value and checks the laws; every transition replayed into the code; recorded random histories validated by TLC"
NOTE = ("Every operation (indexing, at, find, count, erase, push_back, emplace_back, clear, size, empty, type tests, make_array/make_object, all right and wrong kinds, indices beyond what any array holds) at every location of every value reachable in two steps from one value of each kind, "
        "result/exception class and whole value compared; recorded random histories accepted by TLC; growth, erasure and lookup in containers of up to 65,537 elements.")
ASSUMPTIONS = ["erase(index) is used with an existing index (the index is a precondition, as for std::vector)"]

OPS = ["set", "nul", "mt", "ma", "mo", "ix", "ik", "iC", "ci", "ai", "ck", "ak", "cC", "aC", "sz", "em", "ty", "ct", "fd", "fc", "ek", "ei", "pv", "eb", "cl", "hx", "hc", "ha"]
STARTS = [["n"], ["b", 1], ["i", [-1, 4, 2]], ["d", [1, 0, 2, 5]], ["s", [97, 98]], ["s", []], ["a", []], ["o", []], ["a", [A, ["n"], B]], ["o", [[[97], A], [[98], ["a", [B]]]]],
          ["a", [["o", [[[98], ["o", []]]]], ["a", []]]], ["o", [[[], ["n"]], [[97], ["o", [[[97], ["b", 0]]]]]]]]
KEYS = [[], [97], [97, 97], [98], [104, 101], [0x1F600, 0xE9]]
LITS = [["n"], ["b", 0], ["i", [1, 7]], ["d", [1, 0, 2]], ["s", []], ["s", [233]], ["a", []], ["a", [["n"]]], ["o", [[[98], ["b", 1]]]], ["a", [["i", [1, 1]], ["a", []]]]]

def run(chk):
    q = chk.quick
    big = bulk.start(chk, {"ops": ("sz", "eh", "cl", "grow", "push", "have")})
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, chk, ("h_store", "h_store.cpp", SAN))
        t1 = model(chk, "one-step", [[s] for s in STARTS], OPS, KEYS, [0, 1, 2, 3, 7, 300], LITS, 1, 1000)
        t2 = model(chk, "two-steps", [[s] for s in STARTS[:-2]], [o for o in OPS if o not in ("mo", "set", "eb")], KEYS[:2], [0, 2], LITS[-3:-1], 2, 9 if q else 12)
        exe = fut.result()["h_store"]
    if q and len(t2) > 60000: t2 = chk.rng.sample(t2, 60000)
    judge(chk, "one-step", exe, cases(t1), same)
    judge(chk, "two-steps", exe, cases(t2), same)
    histories(chk, "random", exe, 1500 if q else 10000, 1, 40)
    big()
