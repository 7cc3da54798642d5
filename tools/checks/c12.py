"""C12: bound custom types convert field by field."""
from checks.convert import *
TECHNIQUE = "TLA+ specification of conversions over type descriptors (Convert), round-trip law and conversion table by TLC, replayed on and traces validated from the real bindings (records of 1 to 50 fields)"
NOTE = ("Bound records (required, optional, renamed, nested, pointer, container, non-default-constructible fields; every number of fields from 1 to 50) and types bound through a specialised value_binder, also inside 12 containers and pointers: every instance, source (each field missing, replaced by each shape, extra members, non-objects) and prior content enumerated by TLC is replayed; "
        "larger random conversions are recorded and validated by TLC.")
ASSUMPTIONS = ["the initial content of an optional field is its type's default value (a bound field initialised otherwise is not restored when it holds the type's default)", "integers fit the native integer type"]
def run(chk):
    run_types(chk, BOUND, KS, 600 if chk.quick else 6000)
