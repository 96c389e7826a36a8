"""Single source of properties.jsonl, MANIFEST.json and of what each check runs (gen.py writes the former two)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import Unit

P = {}


def prop(pid, title, statement, over, text, why, files, mech, observe=None, units=None, bounds=None, assume=(), state=None, na=None, note=None):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [],
                  units=units, bounds=bounds or {}, assume=list(assume), state=state or [], na=na, note=note)


FP_ASSUME = "Floating-point values are modelled as exact reals plus a propagated rounding-error bound; results are compared within the stated tolerance."
RNG_ASSUME = "std::generate_canonical is replaced by an arbitrary value of its documented range [0,1)."
ALLOC_ASSUME = "malloc/new succeed; one host thread unless stated (std::thread and std::async bodies run, at their creation, in one fixed order)."
STD = [FP_ASSUME, RNG_ASSUME, ALLOC_ASSUME]

import plist  # noqa: fills P


def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"
