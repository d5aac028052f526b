from irv import nrun
from . import _interp
OPS = _interp.by_group("intarith", "intcmp")
TWO = [o for o in OPS if o in ("SMLADDINT", "SMLSUBINT", "SMLMULINT", "SMLDIVINT", "SMLMODINT", "SMLQUOTINT", "SMLREMINT")]
_interp.install(globals(), "C01", OPS, per_op=120, extra_cases=lambda tier, seed, models, deep: nrun.pair_cases(TWO, seed))
