from . import _interp
OPS = _interp.by_group("ccall")
_interp.install(globals(), "C10", OPS, per_op=100)
