from irv import crt

from . import _interp
OPS = _interp.by_group("exn")
_interp.install(globals(), "C07", OPS, per_op=60, extra_cases=crt.stack_cases, runner=crt.make_runner)
