from . import _interp
OPS = _interp.by_group("stack", "env", "data", "branch")
_interp.install(globals(), "C05", OPS, per_op=25)
