from irv import crt

from . import _interp
OPS = _interp.by_group("alloc")
_interp.install(globals(), "C09", OPS, per_op=100, extra_cases=crt.heap_cases, runner=crt.make_runner)
