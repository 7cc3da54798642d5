"""C11: standard containers convert to values and back without loss."""
from checks import bulk
from checks.convert import *
TECHNIQUE = "TLA+ specification of conversions over type descriptors (Convert), round-trip law and conversion table by TLC, replayed on and traces validated from the real conversions"
NOTE = ("TLC enumerates natives (all small contents), sources (all shapes, right and wrong, mixed elements) and prior target contents for 55 container types incl. nested ones, C arrays and owning pointers, and checks the round-trip law; every entry is replayed through construction, move, assignment, get<T>(), implicit conversion "
        "and get(variable) for narrow and wide values under ASan/UBSan; larger random conversions are recorded and validated by TLC; sequences and maps of up to 65,537 elements.")
ASSUMPTIONS = ["an empty object read as a sequence, an empty array read as a map and a wrong shape read into a zero-length array are left unspecified", "integers fit the native integer type"]
def run(chk):
    big = bulk.start(chk, {"ops": ("conv",)})
    run_types(chk, CONT, [], 800 if chk.quick else 8000)
    big()
