from irv import nrun
from . import _interp
OPS = _interp.by_group("word")
TWO = [o for o in OPS if o in ("ADDINT", "SUBINT", "MULINT", "DIVINT", "MODINT")]
_interp.install(globals(), "C02", OPS, extra_cases=lambda tier, seed, models, deep: nrun.pair_cases(TWO, seed))
