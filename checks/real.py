from . import _interp
OPS = _interp.by_group("real")
_interp.install(globals(), "C03", OPS, per_op=100)
